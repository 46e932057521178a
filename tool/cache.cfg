inline ^std::unordered_set<
inline ^std::unordered_map<
opaque ^PredicateValue::
opaque ^EvaluatePredicate::operator\(\)
inline ^std::map<
