INIT SInit
NEXT SNext
CONSTANTS Clients = {1, 2, 3}
 Keys = {1, 2, 3}
