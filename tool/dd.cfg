inline ^std::unordered_set<
opaque ^PredicateValue::
opaque ^Trace::query\|
