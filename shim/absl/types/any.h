#include <any>
namespace absl { using std::any; using std::any_cast; }
