#include <bit>
namespace absl { using std::popcount; using std::countl_zero; using std::countr_zero; using std::rotl; using std::rotr; }
