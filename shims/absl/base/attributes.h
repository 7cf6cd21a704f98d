#pragma once
#define ABSL_MUST_USE_RESULT [[nodiscard]]
#define ABSL_ATTRIBUTE_LIFETIME_BOUND
#define ABSL_CONST_INIT
#define ABSL_ATTRIBUTE_NOINLINE
#define ABSL_ATTRIBUTE_UNUSED
#define ABSL_FALLTHROUGH_INTENDED [[fallthrough]]
