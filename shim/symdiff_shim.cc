#include "EngineAPI.hh"
#include "parseexpr.hh"
#include "UserFunc.hh"
#include "LogicalFunc.hh"
#include <cctype>
#include <cstdlib>
#include <sstream>
#include <stdexcept>

namespace {
EngineAPI::ModelListCallBack_t model_list_cb = nullptr;
EngineAPI::DerivativeRule_t derivative_rule = nullptr;

using Eqo::EqObjPtr;
using Eqo::con;

// An opaque leaf with user-definable derivative (devsim's "model").
class ShimModel : public Eqo::EquationObject {
  public:
    explicit ShimModel(const std::string &v) : EquationObject(Eqo::MODEL_OBJ), value(v) {}
    EqObjPtr Derivative(EqObjPtr foo)
    {
      if (foo->stringValue() == value) { return con(1.0); }
      if (derivative_rule) { return derivative_rule(shared_from_this(), foo); }
      return con(0.0);
    }
    EqObjPtr Simplify() { return shared_from_this(); }
    EqObjPtr CombineProduct(std::vector<EqObjPtr> y)
    {
      if (y.empty()) return shared_from_this();
      y.push_back(shared_from_this());
      return EqObjPtr(new Eqo::Product(y));
    }
    EqObjPtr CombineAdd(std::vector<EqObjPtr> y)
    {
      if (y.empty()) return shared_from_this();
      y.push_back(shared_from_this());
      return EqObjPtr(new Eqo::Add(y));
    }
    bool isZero() { return false; }
    bool isOne() { return false; }
    EqObjPtr getScale() { return con(1.0); }
    EqObjPtr getUnscaledValue() { return shared_from_this(); }
    double getSign() { return 1.0; }
    EqObjPtr getUnsignedValue() { return shared_from_this(); }
    EqObjPtr clone() { return EqObjPtr(new ShimModel(value)); }
    EqObjPtr subst(const std::string &s, EqObjPtr e) { return (s == stringValue()) ? e : shared_from_this(); }
    EqObjPtr expand() { return shared_from_this(); }
    std::vector<EqObjPtr> getArgs() { return createArgs(shared_from_this()); }
    bool hasReciprocal() { return false; }
    EqObjPtr getReciprocal() { return con(0); }
    std::set<std::string> getReferencedType(Eqo::EqObjType rt) { return CreateSetIfThisType(rt); }
  private:
    std::string createStringValue() { return value; }
    const std::string value;
};

// if(test, a) and ifelse(test, a, b)
class ShimIf : public Eqo::EquationObject {
  public:
    explicit ShimIf(const std::vector<EqObjPtr> &a)
      : EquationObject(a.size() == 2 ? Eqo::IF_OBJ : Eqo::IFELSE_OBJ), args(a) {}
    const char *name() const { return args.size() == 2 ? "if" : "ifelse"; }
    EqObjPtr Derivative(EqObjPtr foo)
    {
      std::vector<EqObjPtr> a(args);
      bool allzero = true;
      for (size_t i = 1; i < a.size(); ++i) { a[i] = a[i]->Derivative(foo); allzero = allzero && a[i]->isZero(); }
      if (allzero) { return con(0.0); }
      return EqObjPtr(new ShimIf(a));
    }
    EqObjPtr map(EqObjPtr (*f)(EqObjPtr))
    {
      std::vector<EqObjPtr> a(args);
      for (auto &x : a) { x = f(x); }
      return EqObjPtr(new ShimIf(a));
    }
    EqObjPtr Simplify() { return map([](EqObjPtr x) { return x->Simplify(); }); }
    EqObjPtr CombineProduct(std::vector<EqObjPtr> y)
    {
      if (y.empty()) return shared_from_this();
      y.push_back(shared_from_this());
      return EqObjPtr(new Eqo::Product(y));
    }
    EqObjPtr CombineAdd(std::vector<EqObjPtr> y)
    {
      if (y.empty()) return shared_from_this();
      y.push_back(shared_from_this());
      return EqObjPtr(new Eqo::Add(y));
    }
    bool isZero() { return false; }
    bool isOne() { return false; }
    EqObjPtr getScale() { return con(1.0); }
    EqObjPtr getUnscaledValue() { return shared_from_this(); }
    double getSign() { return 1.0; }
    EqObjPtr getUnsignedValue() { return shared_from_this(); }
    EqObjPtr clone() { return map([](EqObjPtr x) { return x->clone(); }); }
    EqObjPtr subst(const std::string &s, EqObjPtr e)
    {
      if (s == stringValue()) return e;
      std::vector<EqObjPtr> a(args);
      for (auto &x : a) { x = x->subst(s, e); }
      return EqObjPtr(new ShimIf(a));
    }
    EqObjPtr expand() { return map([](EqObjPtr x) { return x->expand(); }); }
    std::vector<EqObjPtr> getArgs() { return args; }
    bool hasReciprocal() { return false; }
    EqObjPtr getReciprocal() { return con(0); }
    std::set<std::string> getReferencedType(Eqo::EqObjType rt) { return Eqo::UniteReferencedType(rt, args); }
  private:
    std::string createStringValue()
    {
      std::ostringstream os;
      os << name() << "(";
      for (size_t i = 0; i < args.size(); ++i) { os << (i ? ", " : "") << args[i]->stringValue(); }
      os << ")";
      return os.str();
    }
    std::vector<EqObjPtr> args;
};

struct ParseError : public std::runtime_error {
  explicit ParseError(const std::string &s) : std::runtime_error(s) {}
};

// Grammar: precedences follow src/adiff/mcParser.y
class Parser {
  public:
    Parser(const std::string &s) : s_(s), p_(0) { next(); }

    EqObjPtr program()
    {
      EqObjPtr last = con(0.0);
      bool any = false;
      while (true)
      {
        while (tok_ == ";") { next(); }
        if (kind_ == END) { break; }
        last = statement();
        any = true;
        if (kind_ != END && tok_ != ";") { fail(); }
      }
      if (!any) { throw ParseError("syntax error: empty expression"); }
      return last;
    }

  private:
    enum Kind { END, NUM, NAME, OP };
    std::string s_; size_t p_; Kind kind_; std::string tok_; double num_;

    void fail() { throw ParseError("syntax error near \"" + tok_ + "\""); }

    static bool namestart(unsigned char c) { return isalpha(c) || c >= 0x80 || c == '_' || c == '$'; }
    static bool namechar(unsigned char c) { return isalnum(c) || c >= 0x80 || c == '_' || c == '@' || c == ':' || c == '.'; }

    void next()
    {
      while (p_ < s_.size() && isspace((unsigned char)s_[p_])) { ++p_; }
      if (p_ >= s_.size()) { kind_ = END; tok_.clear(); return; }
      unsigned char c = s_[p_];
      if (isdigit(c) || (c == '.' && p_ + 1 < s_.size() && isdigit((unsigned char)s_[p_+1])))
      {
        const char *b = s_.c_str() + p_;
        size_t q = p_;
        while (q < s_.size() && isdigit((unsigned char)s_[q])) ++q;
        if (q < s_.size() && s_[q] == '.') { ++q; while (q < s_.size() && isdigit((unsigned char)s_[q])) ++q; }
        if (q < s_.size() && (s_[q] == 'e' || s_[q] == 'E'))
        {
          size_t r = q + 1;
          if (r < s_.size() && (s_[r] == '+' || s_[r] == '-')) ++r;
          if (r < s_.size() && isdigit((unsigned char)s_[r]))
          {
            while (r < s_.size() && isdigit((unsigned char)s_[r])) ++r;
            q = r;
          }
        }
        tok_ = std::string(b, q - p_);
        num_ = strtod(tok_.c_str(), nullptr);
        kind_ = NUM; p_ = q; return;
      }
      if (namestart(c))
      {
        size_t q = p_;
        while (q < s_.size() && namechar((unsigned char)s_[q])) ++q;
        tok_ = s_.substr(p_, q - p_); kind_ = NAME; p_ = q; return;
      }
      kind_ = OP;
      static const char *two[] = {"<=", ">=", "==", "!=", "&&", "||"};
      for (auto t : two) { if (s_.compare(p_, 2, t) == 0) { tok_ = t; p_ += 2; return; } }
      tok_ = s_.substr(p_, 1); ++p_;
    }
    void expect(const char *t) { if (kind_ == OP && tok_ == t) { next(); } else { fail(); } }
    bool isop(const char *t) const { return kind_ == OP && tok_ == t; }

    EqObjPtr statement()
    {
      if (kind_ == NAME && (tok_ == "declare" || tok_ == "define"))
      {
        const bool def = tok_ == "define";
        next(); expect("(");
        if (kind_ != NAME) { fail(); }
        std::string fn = tok_; next(); expect("(");
        std::vector<std::string> av;
        while (true)
        {
          if (kind_ != NAME) { fail(); }
          av.push_back(tok_); next();
          if (isop(",")) { next(); continue; }
          break;
        }
        expect(")");
        if (Eqo::getUnaryFuncPtr(fn) || Eqo::getBinaryFuncPtr(fn)) { throw ParseError("cannot redefine function " + fn); }
        if (Eqo::UserFuncMap.count(fn) && Eqo::UserFuncMap[fn].size() != av.size())
        {
          throw ParseError(fn + " already declared with a different number of arguments");
        }
        if (!Eqo::UserFuncMap.count(fn)) { Eqo::CreateUserFunc(fn, av.size()); }
        std::vector<EqObjPtr> dv;
        if (def)
        {
          while (isop(",")) { next(); dv.push_back(expr(0)); }
          if (dv.size() != av.size()) { throw ParseError("wrong number of derivatives for " + fn); }
          Eqo::UserDiffInfoVec info;
          for (size_t i = 0; i < dv.size(); ++i)
          {
            for (size_t j = 0; j < av.size(); ++j) { dv[i] = dv[i]->subst(av[j], Eqo::var("@" + av[j])); }
            info.push_back(std::make_pair("@" + av[i], dv[i]));
          }
          Eqo::SetUserFuncDiffs(fn, info);
        }
        expect(")");
        std::vector<EqObjPtr> fa;
        for (auto &a : av) { fa.push_back(Eqo::var(a)); }
        return EqObjPtr(new Eqo::UserFunc(fn, fa));
      }
      return expr(0);
    }

    static int prec(const std::string &t)
    {
      if (t == "||") return 1;
      if (t == "&&") return 2;
      if (t == "==" || t == "!=") return 3;
      if (t == "<" || t == "<=" || t == ">" || t == ">=") return 4;
      if (t == "+" || t == "-") return 5;
      if (t == "*" || t == "/") return 6;
      if (t == "^") return 7;
      return 0;
    }

    EqObjPtr expr(int minp)
    {
      EqObjPtr l = unary();
      while (kind_ == OP)
      {
        const std::string op = tok_;
        const int pr = prec(op);
        if (pr == 0 || pr < minp) { break; }
        next();
        EqObjPtr r = expr(op == "^" ? pr : pr + 1);
        if (op == "+") l = l + r;
        else if (op == "-") l = l - r;
        else if (op == "*") l = l * r;
        else if (op == "/") l = l / r;
        else if (op == "^") l = Eqo::pow(l, r);
        else l = EqObjPtr(new Eqo::BinaryLogical(op, l, r));
      }
      return l;
    }

    EqObjPtr unary()
    {
      if (isop("-")) { next(); return Eqo::getNegation(expr(8)); }
      if (isop("+")) { next(); return expr(8); }
      if (isop("!")) { next(); return EqObjPtr(new Eqo::UnaryLogical("!", expr(8))); }
      return primary();
    }

    EqObjPtr primary()
    {
      if (isop("(")) { next(); EqObjPtr e = expr(0); expect(")"); return e; }
      if (kind_ == NUM) { double v = num_; next(); return con(v); }
      if (kind_ != NAME) { fail(); }
      const std::string nm = tok_;
      next();
      if (!isop("("))
      {
        if (model_list_cb && model_list_cb(nm)) { return EngineAPI::mod(nm); }
        return Eqo::var(nm);
      }
      next();
      std::vector<EqObjPtr> a;
      while (true)
      {
        a.push_back(expr(0));
        if (isop(",")) { next(); continue; }
        break;
      }
      expect(")");
      if (nm == "if" || nm == "ifelse")
      {
        if (a.size() != (nm == "if" ? 2u : 3u)) { throw ParseError("wrong number of arguments for " + nm); }
        return EqObjPtr(new ShimIf(a));
      }
      if (auto f = Eqo::getUnaryFuncPtr(nm))
      {
        if (a.size() != 1) { throw ParseError("wrong number of arguments for " + nm); }
        return f(a[0]);
      }
      if (auto f = Eqo::getBinaryFuncPtr(nm))
      {
        if (a.size() != 2) { throw ParseError("wrong number of arguments for " + nm); }
        if (nm == "diff")
        {
          const auto t = a[1]->getType();
          if (t != Eqo::VARIABLE_OBJ && t != Eqo::MODEL_OBJ) { throw ParseError("can only differentiate with respect to a name"); }
        }
        return f(a[0], a[1]);
      }
      auto it = Eqo::UserFuncMap.find(nm);
      if (it == Eqo::UserFuncMap.end()) { throw ParseError("function " + nm + " is not declared"); }
      if (it->second.size() != a.size()) { throw ParseError("wrong number of arguments for " + nm); }
      return EqObjPtr(new Eqo::UserFunc(nm, a));
    }
};
}

namespace EngineAPI {
EqObjType getEnumeratedType(EqObjPtr x) { return x->getType(); }
const std::string &getStringValue(EqObjPtr x) { return x->stringValue(); }
std::string getName(EqObjPtr x)
{
  switch (x->getType())
  {
    case Eqo::EXPONENT_OBJ: return "exp";
    case Eqo::POW_OBJ: return "pow";
    case Eqo::LOG_OBJ: return "log";
    case Eqo::IF_OBJ: return "if";
    case Eqo::IFELSE_OBJ: return "ifelse";
    case Eqo::USERFUNC_OBJ: return std::dynamic_pointer_cast<Eqo::UserFunc>(x)->getName();
    case Eqo::BLOGICAL_OBJ: return std::dynamic_pointer_cast<Eqo::BinaryLogical>(x)->getOperator();
    case Eqo::ULOGICAL_OBJ: return std::dynamic_pointer_cast<Eqo::UnaryLogical>(x)->getOperator();
    case Eqo::ADD_OBJ: return "add";
    case Eqo::PRODUCT_OBJ: return "product";
    default: return x->stringValue();
  }
}
double getDoubleValue(EqObjPtr x) { return std::dynamic_pointer_cast<Eqo::Constant>(x)->getDoubleValue(); }
std::vector<EqObjPtr> getArgs(EqObjPtr x) { return x->getArgs(); }
std::set<std::string> getReferencedType(EqObjPtr x, EqObjType t) { return x->getReferencedType(t); }
EqObjPtr con(double x) { return Eqo::con(x); }
EqObjPtr mod(const std::string &x) { return EqObjPtr(new ShimModel(x)); }
void SetModelListCallBack(ModelListCallBack_t f) { model_list_cb = f; }
void SetDerivativeRule(DerivativeRule_t f) { derivative_rule = f; }
void ResetAllData() { Eqo::UserFuncMap.clear(); Eqo::variableMap.clear(); }
}

namespace EvalExpr {
Eqo::EqObjPtr evaluateExpression(const std::string &s, error_t &errors)
{
  Eqo::EqObjPtr ret = Eqo::con(0.0);
  try
  {
    Parser p(s);
    ret = p.program();
  }
  catch (const ParseError &e)
  {
    errors.push_back(e.what());
  }
  return ret;
}
}
