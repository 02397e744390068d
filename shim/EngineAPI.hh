// Stand-in for the external "symdiff" engine (a git submodule of devsim which
// is not present in this tree).  It exposes the interface devsim's
// src/AutoEquation sources expect, implemented on top of devsim's own in-tree
// differentiation engine, src/adiff.
#ifndef VERIF_ENGINE_API_HH
#define VERIF_ENGINE_API_HH
#include "EquationObject.hh"
#include <memory>
#include <set>
#include <string>
#include <vector>
namespace EngineAPI {
using EqObjType = Eqo::EqObjType;
using Eqo::CONST_OBJ;
using Eqo::VARIABLE_OBJ;
using Eqo::ADD_OBJ;
using Eqo::PRODUCT_OBJ;
using Eqo::EXPONENT_OBJ;
using Eqo::POW_OBJ;
using Eqo::LOG_OBJ;
using Eqo::MODEL_OBJ;
using Eqo::USERFUNC_OBJ;
using Eqo::BLOGICAL_OBJ;
using Eqo::ULOGICAL_OBJ;
using Eqo::IF_OBJ;
using Eqo::IFELSE_OBJ;

typedef bool (*ModelListCallBack_t)(const std::string &);
typedef Eqo::EqObjPtr (*DerivativeRule_t)(Eqo::EqObjPtr, Eqo::EqObjPtr);

EqObjType getEnumeratedType(Eqo::EqObjPtr);
const std::string &getStringValue(Eqo::EqObjPtr);
std::string getName(Eqo::EqObjPtr);
double getDoubleValue(Eqo::EqObjPtr);
std::vector<Eqo::EqObjPtr> getArgs(Eqo::EqObjPtr);
std::set<std::string> getReferencedType(Eqo::EqObjPtr, EqObjType);
Eqo::EqObjPtr con(double);
Eqo::EqObjPtr mod(const std::string &);
void SetModelListCallBack(ModelListCallBack_t);
void SetDerivativeRule(DerivativeRule_t);
void ResetAllData();
}
#endif
