#pragma once
namespace uhd { inline bool set_thread_priority_safe(float = 0.5f, bool = true) { return true; } }
