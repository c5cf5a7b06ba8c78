// The native types under test, in groups compiled separately.
#if PART == 0
X("null", std::nullptr_t) X("bool", bool) X("i8", i8) X("u8", u8) X("char", char) X("i16", int16_t) X("u16", uint16_t) X("i32", int32_t) X("u32", uint32_t) X("i64", i64) X("u64", uint64_t)
#elif PART == 1
X("flt", float) X("dbl", double) X("str", Str) X("time", secs) X("timens", nsecs) X("const7", std::integral_constant<int, 7>) X("user", User) X("opt_int", Opt<int>) X("opt_str", Opt<Str>) X("opt_bool", Opt<bool>)
#elif PART == 2
X("opt_vec", Opt<std::vector<int>>) X("var_ids", Var<int, double, Str>) X("var_di", Var<double, i64>) X("var_svm", Var<Str, std::vector<int>, Map>) X("var_os", Var<Opt<int>, Str>) X("var_bi", Var<bool, int>)
X("tup0", std::tuple<>) X("tup1", std::tuple<int>) X("tup2", std::tuple<int, Str>) X("tup4", std::tuple<bool, double, Opt<Str>, i64>)
#elif PART == 3
X("pair_si", std::pair<Str, int>) X("pair_vm", std::pair<std::vector<int>, std::map<Str, bool>>) X("vec_int", std::vector<int>) X("vec_dbl", std::vector<double>) X("vec_str", std::vector<Str>)
X("vec_vec", std::vector<std::vector<int>>) X("vec_opt", std::vector<Opt<int>>) X("vec_user", std::vector<User>) X("vec_heap", std::vector<dart::heap>)
#elif PART == 4
X("deq_str", std::deque<Str>) X("list_int", std::list<int>) X("fl_str", std::forward_list<Str>) X("fl_int", std::forward_list<int>) X("list_tup", std::list<std::tuple<Str, int>>) X("deq_map", std::deque<std::map<Str, Opt<int>>>)
X("arr1", std::array<int, 1>) X("arr3", std::array<int, 3>) X("arr_str", std::array<Str, 2>) X("arr_opt", std::array<Opt<std::vector<int>>, 2>)
#elif PART == 5
X("set_int", std::set<int>) X("set_str", std::set<Str>) X("uset_int", std::unordered_set<int>) X("uset_str", std::unordered_set<Str>) X("mset_int", std::multiset<int>) X("mset_str", std::multiset<Str>)
X("umset_int", std::unordered_multiset<int>) X("umset_str", std::unordered_multiset<Str>) X("mset_dbl", std::multiset<double>) X("set_vec", std::set<std::vector<int>>)
#elif PART == 6
X("map_int", Map) X("map_str", std::map<Str, Str>) X("map_opt", std::map<Str, Opt<int>>) X("umap_opt", std::unordered_map<Str, Opt<Str>>) X("umap_int", std::unordered_map<Str, int>) X("map_vec", std::map<Str, std::vector<double>>)
X("map_bad", std::map<int, int>) X("map_ukey", std::map<UKey, int>) X("map_user", std::map<Str, User>) X("map_pkt", std::map<Str, dart::packet>)
#else
X("mmap_int", std::multimap<Str, int>) X("mmap_str", std::multimap<Str, Str>) X("ummap_int", std::unordered_multimap<Str, int>) X("ummap_opt", std::unordered_multimap<Str, Opt<int>>) X("mmap_vec", std::multimap<Str, std::vector<int>>)
X("mmap_ukey", std::multimap<UKey, int>) X("map_deep", std::map<Str, std::map<Str, std::vector<Opt<int>>>>) X("map_var", std::map<Str, Var<int, Str>>) X("umap_set", std::unordered_map<Str, std::set<Str>>)
#endif
