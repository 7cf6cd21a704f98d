#pragma once
namespace absl {
template <class T> using Nonnull = T;
template <class T> using Nullable = T;
template <class T> using NullabilityUnknown = T;
}
