// Gone from current versions of rapidjson; tools/order.hh only includes it.
#pragma once
