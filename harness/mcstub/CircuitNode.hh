#include "InstanceModel.hh"
