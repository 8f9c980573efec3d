pkg error
imp common
enum Errno { OK = 0; EINTERNAL = 10001; ENOT_SUPPORT = 10002; EAUTO_INCREMENT_EXIST = 20001; EAUTO_INCREMENT_NOT_FOUND = 20002; EAUTO_INCREMENT_WHILE_CREATING_TABLE = 20003; EBACKUP_CREATE_REMOTE_DIR = 20004; EBACKUP_DINGO_STORE_JOB_LIST_EXIST = 20005; EBACKUP_TASK_EXIST = 20006; EBACKUP_TASK_NAME_NOT_MATCH = 20007; EBACKUP_TXN_FOUND_LOCK = 20008; EBACKUP_VERSION_NOT_MATCH = 20009; EBDB_COMMIT = 20010; EBDB_DEADLOCK = 20011; EBDB_EXCEPTION = 20012; EBDB_UNKNOW = 20013; EBIND_CORE = 20014; EBRAFT_EINVAL = 20015; ECHANGE_PEER_STATUS_ILLEGAL = 20016; ECHANGE_PEER_STORE_ENGINE_NOT_MATCH = 20017; ECHANGE_PEER_UNABLE_TO_REMOVE_LEADER = 20018; EDISKANN_AIO_NOT_ENOUGH = 20019; EDISKANN_BUILD_STATE_WRONG = 20020; EDISKANN_FILE_TRANSFER_QUANTITY_MISMATCH = 20021; EDISKANN_ID_BIN_COUNT_NOT_MATCH = 20022; EDISKANN_ID_BIN_DIMENSION_NOT_MATCH = 20023; EDISKANN_ID_BIN_READ_ERROR = 20024; EDISKANN_IMPORT_COUNT_TOO_FEW = 20025; EDISKANN_IMPORT_COUNT_TOO_MANY = 20026; EDISKANN_IMPORT_FAILED = 20027; EDISKANN_IMPORT_STATE_WRONG = 20028; EDISKANN_IMPORT_TIMEOUT = 20029; EDISKANN_IMPORT_TSO_NOT_MATCH = 20030; EDISKANN_IMPORT_TS_NOT_MATCH = 20031; EDISKANN_IMPORT_VECTOR_ID_COUNT_NOT_MATCH = 20032; EDISKANN_IMPORT_VECTOR_ID_DUPLICATED = 20033; EDISKANN_IS_BUILDING = 20034; EDISKANN_IS_IMPORTING = 20035; EDISKANN_IS_LOADING = 20036; EDISKANN_IS_NO_DATA = 20037; EDISKANN_LOAD_STATE_WRONG = 20038; EDISKANN_NET_DISCONNECTED = 20039; EDISKANN_NOT_BUILD = 20040; EDISKANN_NOT_IMPORT = 20041; EDISKANN_NOT_INIT = 20042; EDISKANN_NOT_LOAD = 20043; EDISKANN_NOT_UPDATE = 20044; EDISKANN_NO_DATA_STATE_WRONG = 20045; EDISKANN_TRYLOAD_STATE_WRONG = 20046; EDOCUMENT_EMPTY = 20047; EDOCUMENT_EXCEED_MAX_BATCH_COUNT = 20048; EDOCUMENT_EXCEED_MAX_REQUEST_SIZE = 20049; EDOCUMENT_INDEX_BUILD_ERROR = 20050; EDOCUMENT_INDEX_FULL = 20051; EDOCUMENT_INDEX_LOAD_SNAPSHOT = 20052; EDOCUMENT_INDEX_NOT_FOUND = 20053; EDOCUMENT_INDEX_NOT_READY = 20054; EENGINE_NOT_FOUND = 20055; EEXECUTOR_NOT_FOUND = 20056; EEXEC_FAIL = 20057; EFAIL_POINT = 20058; EFAIL_POINT_RETURN = 20059; EFILE_CROSS_DEVICE = 20060; EFILE_EXIST = 20061; EFILE_NOT_DIRECTORY = 20062; EFILE_NOT_EXIST = 20063; EFILE_NOT_FOUND_READER = 20064; EFILE_NOT_OWNER_READABLE = 20065; EFILE_NOT_REGULAR = 20066; EFILE_PERMISSION_DENIED = 20067; EFILE_READ = 20068; EILLEGAL_PARAMTETERS = 20069; EINDEX_COLUMN_NOT_FOUND = 20070; EINDEX_COMPATIBILITY = 20071; EINDEX_COUNT_EXCEED_LIMIT = 20072; EINDEX_DEFINITION_ILLEGAL = 20073; EINDEX_EXISTS = 20074; EINDEX_METRICS_FAILED = 20075; EINDEX_NOT_FOUND = 20076; EINDEX_REGION_CREATE_FAILED = 20077; EJOB_ID_EMPTY = 20078; EKEYRING_ILLEGAL = 20079; EKEY_EMPTY = 20080; EKEY_INVALID = 20081; EKEY_NOT_FOUND = 20082; EKEY_OUT_OF_RANGE = 20083; EKV_COUNT_EXCEEDS_LIMIT = 20084; ELEASE_COUNT_EXCEEDS_LIMIT = 20085; ELEASE_NOT_EXISTS_OR_EXPIRED = 20086; EMERGE_PART_NOT_MATCH = 20087; EMERGE_PEER_NOT_MATCH = 20088; EMERGE_RANGE_NOT_MATCH = 20089; EMERGE_RAW_ENGINE_NOT_MATCH = 20090; EMERGE_REGION_TYPE_NOT_MATCH = 20091; EMERGE_STATUS_ILLEGAL = 20092; EMERGE_STORE_ENGINE_NOT_MATCH = 20093; EMERGE_VECTOR_INDEX_PARAMETER_NOT_MATCH = 20094; EMERGE_VECTOR_INDEX_TYPE_NOT_MATCH = 20095; ENO_ENTRIES = 20096; EREGION_PEER_CHANGEING = 20999; ERAFT_COMMITLOG = 20097; ERAFT_DISABLE_SAVE_SNAPSHOT = 20098; ERAFT_EXIST_CHANGE_LOG = 20099; ERAFT_INIT = 20100; ERAFT_META_NOT_FOUND = 20101; ERAFT_NOTLEADER = 20102; ERAFT_NOT_CONSISTENT_READ = 20103; ERAFT_NOT_FOUND = 20104; ERAFT_NOT_FOUND_LOG_STORAGE = 20105; ERAFT_NOT_NEED_SNAPSHOT = 20106; ERAFT_SAVE_SNAPSHOT = 20107; ERAFT_TRANSFER_LEADER = 20108; ERANGE_INVALID = 20109; ERAW_ENGINE_NOT_FOUND = 20110; EREGION_BUSY = 20111; EREGION_CMD_NOT_FOUND = 20112; EREGION_CMD_ONGOING_CONFLICT = 20113; EREGION_COUNT_EXCEED_LIMIT = 20114; EREGION_DELETED = 20115; EREGION_DELETING = 20116; EREGION_DISABLE_CHANGE = 20117; EREGION_DISABLE_MERGE = 20118; EREGION_DISABLE_SPLIT = 20119; EREGION_EXIST = 20120; EREGION_MERGEING = 20121; EREGION_NEW = 20122; EREGION_NOT_FOUND = 20123; EREGION_NOT_NEIGHBOR = 20124; EREGION_ORPHAN = 20125; EREGION_RANGE_CONFLICT = 20126; EREGION_REDIRECT = 20127; EREGION_REPEAT_COMMAND = 20128; EREGION_SNAPSHOT_EPOCH_NOT_MATCH = 20129; EREGION_SPLITING = 20130; EREGION_STANDBY = 20131; EREGION_STATE = 20132; EREGION_TOMBSTONE = 20133; EREGION_UNAVAILABLE = 20134; EREGION_VERSION = 20135; EREQUEST_FULL = 20136; ERESTORE_BACKEND_NOT_SUPPORT = 20137; ERESTORE_CF_NOT_MATCH = 20138; ERESTORE_DINGO_STORE_IS_BACKING_UP = 20139; ERESTORE_DINGO_STORE_NOT_EMPTY = 20140; ERESTORE_DOCUMENT_NODE_NOT_EXIST = 20141; ERESTORE_FIELD_NOT_MATCH = 20142; ERESTORE_FILE_CHECKSUM_NOT_MATCH = 20143; ERESTORE_INDEX_NODE_NOT_EXIST = 20144; ERESTORE_NOT_FOUND_KEY_IN_FILE = 20145; ERESTORE_PARSE_FILE_NAME_FAILED = 20146; ERESTORE_REGION_ID_NOT_MATCH = 20147; ERESTORE_REGION_META_NOT_FOUND = 20148; ERESTORE_STORE_NODE_NOT_EXIST = 20149; ERESTORE_TASK_EXIST = 20150; ERESTORE_TASK_NAME_NOT_MATCH = 20151; ERETRY_LATER = 20152; EROCKS_ENGINE_UPDATE = 20153; ESCAN_NOTFOUND = 20154; ESCHEMA_EXISTS = 20155; ESCHEMA_NOT_EMPTY = 20156; ESCHEMA_NOT_FOUND = 20157; ESEND_STORE_OPERATION_FAIL = 20158; ESPLIT_PEER_NOT_MATCH = 20159; ESPLIT_STATUS_ILLEGAL = 20160; ESTD_EXCEPTION = 20161; ESTORE_IN_USE = 20162; ESTORE_NOT_FOUND = 20163; ESTORE_OPERATION_CONFLICT = 20164; ESTREAM_EXPIRED = 20165; ESYSTEM_CLUSTER_READ_ONLY = 20166; ETABLE_COUNT_EXCEED_LIMIT = 20167; ETABLE_DEFINITION_ILLEGAL = 20168; ETABLE_EXISTS = 20169; ETABLE_METRICS_FAILED = 20170; ETABLE_NOT_FOUND = 20171; ETABLE_REGION_CREATE_FAILED = 20172; ETASK_LIST_CONFLICT = 20173; ETHREADPOOL_NOTFOUND = 20174; ETSO_NOT_AVAILABLE = 20175; ETXN_LOCK_CONFLICT = 20176; ETXN_MEMORY_LOCK_CONFLICT = 20177; ETXN_RESULT_INFO_NOT_NULL = 20178; ETXN_SCAN_FINISH = 20179; EUNBIND_CORE = 20180; EUNSUPPORT_REQ_TYPE = 20181; EUSER_ALREADY_EXIST = 20182; EUSER_NOT_EXIST = 20183; EVALUE_EMPTY = 20184; EVECTOR_EMPTY = 20185; EVECTOR_EXCEED_MAX_BATCH_COUNT = 20186; EVECTOR_EXCEED_MAX_REQUEST_SIZE = 20187; EVECTOR_ID_DUPLICATED = 20188; EVECTOR_INDEX_BUILD_ERROR = 20189; EVECTOR_INDEX_EXCEED_MAX_ELEMENTS = 20190; EVECTOR_INDEX_LOAD_SNAPSHOT = 20191; EVECTOR_INDEX_NOT_FOUND = 20192; EVECTOR_INDEX_NOT_FOUND_DOCUMENT_INDEX = 20193; EVECTOR_INDEX_NOT_READY = 20194; EVECTOR_INDEX_NOT_SUPPORT_SPEEDUP = 20195; EVECTOR_INDEX_SAVE_SUCCESS = 20196; EVECTOR_INDEX_SNAPSHOT_VERSION_NOT_MATCH = 20197; EVECTOR_INVALID = 20198; EVECTOR_NOT_NEED_SNAPSHOT = 20199; EVECTOR_NOT_SUPPORT = 20200; EVECTOR_NOT_TRAIN = 20201; EVECTOR_SNAPSHOT_EXIST = 20202; EVECTOR_SNAPSHOT_NOT_FOUND = 20203; EWATCH_COUNT_EXCEEDS_LIMIT = 20204; EWATCH_EXIST = 20205; EWATCH_NOT_EXIST = 20206; }
message Error { Errno errcode; string errmsg; dingodb.pb.common.Location leader_location; dingodb.pb.common.StoreRegionInfo store_region_info; int64 store_id; }
