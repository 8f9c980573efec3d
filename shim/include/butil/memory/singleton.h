#pragma once
template <typename T> struct DefaultSingletonTraits { static T* New() { return new T(); } };
template <typename T, typename Tr = DefaultSingletonTraits<T>, typename D = T> class Singleton {
 public: static T* get() { static T* t = Tr::New(); return t; }
};
