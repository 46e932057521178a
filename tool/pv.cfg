opaque ^PredicateValue::
