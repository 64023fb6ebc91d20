----------------------------- MODULE ScanClasses -----------------------------
EXTENDS Lookup, Json, IOUtils
ClsTab == JsonDeserialize(IOEnv.SCLASSES)
ClsRows == JsonDeserialize(IOEnv.SROWS)
ScanCls(c) == ClsTab[At(ClsRows, c, ClsRows[1][3]) + 1]
=============================================================================
