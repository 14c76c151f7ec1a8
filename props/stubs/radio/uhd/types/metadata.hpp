// Stand-ins for UHD's headers: the part of the API that cler's blocks use
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
namespace uhd {
struct time_spec_t { double s = 0; time_spec_t(double x = 0) : s(x) {} int64_t get_full_secs() const { return (int64_t)s; } double get_frac_secs() const { return s - (double)(int64_t)s; } bool operator==(const time_spec_t& o) const { return s == o.s; } };
struct rx_metadata_t {
    bool has_time_spec = false; time_spec_t time_spec; bool more_fragments = false; size_t fragment_offset = 0; bool start_of_burst = false, end_of_burst = false;
    enum error_code_t { ERROR_CODE_NONE = 0x0, ERROR_CODE_TIMEOUT = 0x1, ERROR_CODE_LATE_COMMAND = 0x2, ERROR_CODE_BROKEN_CHAIN = 0x4, ERROR_CODE_OVERFLOW = 0x8, ERROR_CODE_ALIGNMENT = 0xc, ERROR_CODE_BAD_PACKET = 0xf } error_code = ERROR_CODE_NONE;
    bool out_of_sequence = false;
    void reset() { *this = rx_metadata_t(); }
    std::string strerror() const { return "stand-in error " + std::to_string((int)error_code); }
};
struct tx_metadata_t { bool has_time_spec = false; time_spec_t time_spec; bool start_of_burst = false, end_of_burst = false; };
struct async_metadata_t {
    size_t channel = 0; bool has_time_spec = false; time_spec_t time_spec;
    enum event_code_t { EVENT_CODE_BURST_ACK = 0x1, EVENT_CODE_UNDERFLOW = 0x2, EVENT_CODE_SEQ_ERROR = 0x4, EVENT_CODE_TIME_ERROR = 0x8, EVENT_CODE_UNDERFLOW_IN_PACKET = 0x10, EVENT_CODE_SEQ_ERROR_IN_BURST = 0x20, EVENT_CODE_USER_PAYLOAD = 0x40 } event_code = EVENT_CODE_BURST_ACK;
};
}
