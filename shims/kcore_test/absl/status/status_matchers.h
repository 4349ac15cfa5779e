#pragma once
#include <ostream>
#include "gmock/gmock.h"
#include "gtest/gtest.h"
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/str_cat.h"
namespace absl { 
namespace testing_shim {
inline const absl::Status& S(const absl::Status& s){return s;}
template<class T> const absl::Status& S(const absl::StatusOr<T>& s){return s.status();}
struct IsOkM { using is_gtest_matcher=void; template<class T> bool MatchAndExplain(const T& v, ::testing::MatchResultListener* l) const { *l << S(v).ToString(); return S(v).ok(); } void DescribeTo(std::ostream*o) const {*o<<"is OK";} void DescribeNegationTo(std::ostream*o) const {*o<<"is not OK";} };
struct StatusIsM { using is_gtest_matcher=void; ::testing::Matcher<absl::StatusCode> c; ::testing::Matcher<const std::string&> m;
 template<class T> bool MatchAndExplain(const T& v, ::testing::MatchResultListener* l) const { *l << S(v).ToString(); return c.Matches(S(v).code()) && m.Matches(std::string(S(v).message())); } void DescribeTo(std::ostream*o) const {*o<<"status "; m.DescribeTo(o);} void DescribeNegationTo(std::ostream*o) const {*o<<"not status";} };
template<class M> struct OkHolds { using is_gtest_matcher=void; M m;
 template<class T> bool MatchAndExplain(const T& v, ::testing::MatchResultListener* l) const { if(!v.ok()){ *l << v.status().ToString(); return false;} using V=std::decay_t<decltype(*v)>; return ::testing::SafeMatcherCast<const V&>(m).MatchAndExplain(*v,l); }
 void DescribeTo(std::ostream*o) const {*o<<"is OK and holds";} void DescribeNegationTo(std::ostream*o) const {*o<<"not holds";} };
}
namespace ABSL_NS_SHIM_ {}
namespace status_matchers_shim {
inline testing_shim::IsOkM IsOk(){return {};}
template<class C, class M> testing_shim::StatusIsM StatusIs(C c, M m){ return {::testing::MatcherCast<absl::StatusCode>(c), ::testing::MatcherCast<const std::string&>(m)};}
template<class C> testing_shim::StatusIsM StatusIs(C c){ return StatusIs(c, ::testing::_);}
template<class M> testing_shim::OkHolds<M> IsOkAndHolds(M m){return {m};}
}
namespace absl_testing { using namespace status_matchers_shim; }
}
namespace absl_testing = absl::absl_testing;
#define EXPECT_OK(e) EXPECT_THAT((e), ::absl_testing::IsOk())
#define ASSERT_OK(e) ASSERT_THAT((e), ::absl_testing::IsOk())
#define SHIM_CAT_(a,b) a##b
#define SHIM_CAT(a,b) SHIM_CAT_(a,b)
#define SHIM_STRIP_(...) __VA_ARGS__
#define ASSERT_OK_AND_ASSIGN(lhs, rexpr) ASSERT_OK_AND_ASSIGN_I(SHIM_CAT(shim_so_,__LINE__), lhs, rexpr)
#define ASSERT_OK_AND_ASSIGN_I(so, lhs, rexpr) auto so = (rexpr); ASSERT_TRUE(so.ok()) << so.status(); SHIM_LHS(lhs) = *std::move(so)
#define SHIM_LHS(lhs) AROLLA_SHIM_UNPAREN(lhs)
#define AROLLA_SHIM_UNPAREN(x) SHIM_IF(SHIM_ISP(x))(x)
#define SHIM_PROBE(...) ,1
#define SHIM_SECOND(a,b,...) b
#define SHIM_SECOND_(...) SHIM_SECOND(__VA_ARGS__)
#define SHIM_ISP(x) SHIM_SECOND_(SHIM_PROBE x, 0, 0)
#define SHIM_IF(c) SHIM_CAT(SHIM_IF_,c)
#define SHIM_IF_0(x) x
#define SHIM_IF_1(x) SHIM_STRIP_ x
