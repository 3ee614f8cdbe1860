// emits inline functions of /repo's headers that no translation unit instantiates
#include <wreport/bufr/input.h>
namespace vp { __attribute__((used)) void (wreport::bufr::Input::*p_skip_bits)(unsigned) = &wreport::bufr::Input::skip_bits; }
