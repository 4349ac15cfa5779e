#pragma once
#include "arolla/mini/qtype.h"
#include "absl/status/status_matchers.h"
namespace arolla::expr { 
struct ExprOperatorSignature { static ExprOperatorSignature MakeVariadicArgs(){return {};} };
struct ExprOperator { std::string n; virtual ~ExprOperator()=default; };
using ExprOperatorPtr = std::shared_ptr<const ExprOperator>;
inline absl::StatusOr<ExprNodePtr> CallOp(ExprOperatorPtr op, std::initializer_list<ExprNodePtr> a){ std::string t=op->n+"("; bool f=true; for(auto&x:a){ if(!f) t+=", "; f=false; t+=x->text;} return RefcountPtr<const ExprNode>::Make(t+")"); }
namespace testing { struct DummyOp: ExprOperator { DummyOp(std::string s, ExprOperatorSignature){n=s;} }; }
}
