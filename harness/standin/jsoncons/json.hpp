// Stand-in for the jsoncons header of the same name (jsoncons is not installed here): nothing of it is used by cbor.hpp.
#pragma once
