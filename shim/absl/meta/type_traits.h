#include <type_traits>
namespace absl { using std::enable_if_t; using std::decay_t; using std::remove_cvref_t; using std::conditional_t; using std::is_same; using std::void_t; using std::conjunction; using std::disjunction; using std::negation; }
