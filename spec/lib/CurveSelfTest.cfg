CONSTANT Salt = 1
INIT Init
NEXT Next
