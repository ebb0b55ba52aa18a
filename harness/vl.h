// includes the library under test: the source tree, or the generated single-header release
#pragma once
#ifdef VL_RELEASE
#include <Vlpp.h>
#else
#include <Collections/List.h>
#include <Collections/Dictionary.h>
#include <Collections/Operation.h>
#include <Collections/PartialOrdering.h>
#include <Collections/Pair.h>
#include <Strings/String.h>
#include <Strings/Conversion.h>
#include <Strings/LoremIpsum.h>
#include <Primitives/Pointer.h>
#include <Primitives/Function.h>
#include <Primitives/Event.h>
#include <Primitives/Nullable.h>
#include <Primitives/Variant.h>
#include <Primitives/Tuple.h>
#include <Primitives/DateTime.h>
#include <GlobalStorage.h>
#include <Console.h>
#include <Exception.h>
#include <UnitTest/UnitTest.h>
#endif
