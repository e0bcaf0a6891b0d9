#include "seqmodel.hpp"
#include <neolib/core/gap_vector.hpp>
VF_SCENARIO(int_gap4, 2) { seq::history<neolib::gap_vector<int, 4>>("gap_vector", r, 60, 100); }
VF_SCENARIO(int_gap256, 2) { seq::history<neolib::gap_vector<int>>("gap_vector", r, 120, 3000); }
VF_SCENARIO(tracked_gap8, 3) { seq::history<neolib::gap_vector<vf::tracked, 8, 1>>("gap_vector", r, 100, 200); }
VF_SCENARIO(string_gap16, 1) { seq::history<neolib::gap_vector<std::string, 16>>("gap_vector", r, 80, 200); }
VF_MAIN
