opaque ^MemoryMap::
opaque ^Trace::read\|
opaque ^openWithTimeout\|
opaque ^TraceVarInfo::read
opaque ^TracePoint::read
