// The copy of rapidjson that cereal used to ship, for the headers of tools/ which name it.
#pragma once
#include <rapidjson/document.h>
