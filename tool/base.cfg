entry e_.*|g_.*|k_.*|s_[a-z_]*
entry create_db|add_trace|add_trace_points|get_trace|n_traces|serialize_trace_db|deserialize_trace_db|free_db|free_c_predicate|query_trace
entry read_trace|trace_size|get_points|n_types|get_types|n_names|get_names|free_trace|free_trace_points
entry _Z19deduplicate_results.*|_Z15points_to_array.*
# library functions that are looked into
inline ^boost::serialization::(access::|split_member|detail::member_(saver|loader))
inline ^boost::flyweights::operator<<
# containers, strings, streams, archives, numbers: events
opaque ^std::(__cxx11::)?(vector|_Vector_base|basic_string|basic_istream|basic_ostream|basic_iostream|basic_ios|ios_base|istream|ostream|ios|string|basic_stringstream|basic_istringstream|basic_ostringstream|map|set|_Rb_tree|_Rb_tree_iterator|_Rb_tree_const_iterator|unordered_map|unordered_set|_Hashtable|deque|list|mersenne_twister_engine|uniform_int_distribution|mutex|exception|runtime_error|bad_alloc|allocator|locale|function|thread|shared_ptr|__shared_ptr)(<|::)
opaque ^std::(__detail|random_device|chrono)::
opaque ^boost::(flyweights|multiprecision|iostreams|archive|hash_combine|hash_range|hash|container_hash|hash_detail|hash_value|serialization|optional|io)(::|<|\||$)
opaque ^std::operator ?(==|!=|<|>|<=|>=) ?(<.*>)?\|\((std::(vector|__cxx11::basic_string|map|_Rb_tree|__detail)|boost)
opaque ^std::(operator\+|operator<<|endl|getline|to_string)
