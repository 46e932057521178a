opaque ^TracePoint(Data)?::(cachedS|s)atisfiesPredicate
