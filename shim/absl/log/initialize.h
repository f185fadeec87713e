#pragma once
namespace absl {
inline void InitializeLog() {}
}  // namespace absl
