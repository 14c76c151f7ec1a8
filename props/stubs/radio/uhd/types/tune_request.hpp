#pragma once
namespace uhd { struct tune_request_t { double target_freq; tune_request_t(double f = 0) : target_freq(f) {} }; struct tune_result_t {}; }
