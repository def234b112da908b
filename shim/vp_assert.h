#pragma once
namespace vp {
[[noreturn]] void assert_failed(const char* expr, const char* file, int line);
}
