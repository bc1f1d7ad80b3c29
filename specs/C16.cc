#include "env.h"
#include <functional>
#include <sstream>
#include "label_encoder.h"
#include "b64.h"
using namespace prometheus;
static std::string b64url(const std::string& v) { return spec::spec_encode(v, true); }
#include "segment.h"
ENTRY(t_label) {
  Label& l = any<Label>("label"); std::string& before = any<std::string>("before");
  std::ostringstream os; os << before;
  detail::encodeLabel(os, l);
  std::string want = before; segment(want, l.first, l.second);
  check_eq(os.str(), want, "a label is written as one name and one value segment, encoded if need be");
}
