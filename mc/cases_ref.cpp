// single-threaded reference of the problems in cases.hpp
#undef INTP_MULTITHREAD
#define intp intp_ref
#define CASES_NS cases_ref
#include "cases.hpp"
void reference(int c, std::vector<double>& o) { cases_ref::run_case(c, o); }
