#include "seqmodel.hpp"
#include <neolib/core/segmented_array.hpp>
using seg2 = neolib::segmented_array<int, 2>;
using seg64 = neolib::segmented_array<int, 64>;
VF_SCENARIO(int_seg2, 2) { seq::history<seg2>("segmented_array", r, 60, 60); }
VF_SCENARIO(int_seg5, 2) { seq::history<neolib::segmented_array<int, 5>>("segmented_array", r, 120, 400); }
VF_SCENARIO(int_seg64, 2) { seq::history<seg64>("segmented_array", r, 120, 3000); }
VF_SCENARIO(tracked_seg3, 3) { seq::history<neolib::segmented_array<vf::tracked, 3>>("segmented_array", r, 100, 100); }
VF_SCENARIO(tracked_seg16, 2) { seq::history<neolib::segmented_array<vf::tracked, 16>>("segmented_array", r, 120, 500); }
VF_SCENARIO(string_seg4, 1) { seq::history<neolib::segmented_array<std::string, 4>>("segmented_array", r, 80, 120); }
VF_MAIN
