#include "ckms.h"
using namespace ckms;
// the error allowed at a rank: a function of the sample's size, whatever quantiles are configured
ENTRY(t_error) {
  CKMSQuantiles& q = any<CKMSQuantiles>("q"); *(const void**)&q.quantiles_ = &any<std::vector<CKMSQuantiles::Quantile> >("quantiles"); int rank = __v_any_i32("rank"); size_t n = q.sample_.size(), m = q.quantiles_.get().size(), c = q.count_;
  double e = q.allowableError(rank);
  check(m != 0 || e <= q.sample_.size() + 1, "the allowed error is not above the size of the sample"); check(q.sample_.size() == n && q.quantiles_.get().size() == m && q.count_ == c, "asking changes nothing");
}
