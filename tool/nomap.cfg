opaque ^MemoryMap::
