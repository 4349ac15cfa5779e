#include "absl/status/status_matchers.h"
#include "arolla/util/status.h"
namespace arolla::testing {
template<class P> struct PayloadIsM { using is_gtest_matcher=void; ::testing::Matcher<const P&> m;
 template<class T> bool MatchAndExplain(const T& v, ::testing::MatchResultListener* l) const { auto* p = GetPayload<P>(absl::testing_shim::S(v)); return p && m.Matches(*p);} void DescribeTo(std::ostream*o) const {*o<<"payload is";} void DescribeNegationTo(std::ostream*o) const {*o<<"not payload";} };
template<class P> PayloadIsM<P> PayloadIs(){return {::testing::_};}
template<class P, class M> PayloadIsM<P> PayloadIs(M m){return {::testing::SafeMatcherCast<const P&>(m)};}
struct CausedByM { using is_gtest_matcher=void; ::testing::Matcher<absl::Status> m;
 template<class T> bool MatchAndExplain(const T& v, ::testing::MatchResultListener* l) const { auto* p = GetCause(absl::testing_shim::S(v)); return p && m.Matches(*p);} void DescribeTo(std::ostream*o) const {*o<<"caused by";} void DescribeNegationTo(std::ostream*o) const {*o<<"not caused by";} };
template<class M> CausedByM CausedBy(M m){return {::testing::SafeMatcherCast<absl::Status>(m)};}
}
