#pragma once
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
#include "uhd/types/metadata.hpp"
#include "uhd/types/tune_request.hpp"
namespace uhd {
template <typename T> class ref_vector {   // as in UHD: one pointer, or a range of pointers
public:
    template <typename Ptr> ref_vector(Ptr* p) : one((T)p), many(nullptr), n(1) {}
    template <typename Range> ref_vector(const Range& r) : one(nullptr), many((T*)(void*)&r[0]), n(r.size()) {}
    T operator[](size_t i) const { return many ? many[i] : one; }
    size_t size() const { return n; }
private:
    T one; T* many; size_t n;
};
struct stream_args_t { std::string cpu_format, otw_format; std::vector<size_t> channels; stream_args_t(const std::string& c = "", const std::string& o = "") : cpu_format(c), otw_format(o) {} };
struct stream_cmd_t { enum stream_mode_t { STREAM_MODE_START_CONTINUOUS = 'a', STREAM_MODE_STOP_CONTINUOUS = 'o', STREAM_MODE_NUM_SAMPS_AND_DONE = 'd', STREAM_MODE_NUM_SAMPS_AND_MORE = 'm' } stream_mode; size_t num_samps = 0; bool stream_now = true; time_spec_t time_spec; stream_cmd_t(stream_mode_t m) : stream_mode(m) {} };
struct rx_streamer {
    typedef std::shared_ptr<rx_streamer> sptr; typedef ref_vector<void*> buffs_type; virtual ~rx_streamer() = default;
    virtual size_t get_num_channels() const = 0; virtual size_t get_max_num_samps() const = 0;
    virtual size_t recv(const buffs_type& buffs, const size_t n, rx_metadata_t& md, const double timeout = 0.1, const bool one_packet = false) = 0;
    virtual void issue_stream_cmd(const stream_cmd_t& c) = 0;
};
struct tx_streamer {
    typedef std::shared_ptr<tx_streamer> sptr; typedef ref_vector<const void*> buffs_type; virtual ~tx_streamer() = default;
    virtual size_t get_num_channels() const = 0; virtual size_t get_max_num_samps() const = 0;
    virtual size_t send(const buffs_type& buffs, const size_t n, const tx_metadata_t& md, const double timeout = 0.1) = 0;
    virtual bool recv_async_msg(async_metadata_t& md, double timeout = 0.1) = 0;
};
struct range_t { double a, b; double start() const { return a; } double stop() const { return b; } };
typedef range_t freq_range_t; typedef range_t gain_range_t;
namespace usrp {
struct multi_usrp {
    typedef std::shared_ptr<multi_usrp> sptr; virtual ~multi_usrp() = default;
    static sptr make(const std::string& args);
    virtual size_t get_rx_num_channels() = 0; virtual size_t get_tx_num_channels() = 0; virtual std::string get_mboard_name(size_t = 0) = 0; virtual std::string get_pp_string() = 0;
    virtual void set_rx_rate(double, size_t) = 0; virtual double get_rx_rate(size_t) = 0; virtual tune_result_t set_rx_freq(const tune_request_t&, size_t) = 0; virtual freq_range_t get_rx_freq_range(size_t) = 0;
    virtual void set_rx_gain(double, size_t) = 0; virtual gain_range_t get_rx_gain_range(size_t) = 0; virtual void set_rx_bandwidth(double, size_t) = 0;
    virtual void set_tx_rate(double, size_t) = 0; virtual double get_tx_rate(size_t) = 0; virtual tune_result_t set_tx_freq(const tune_request_t&, size_t) = 0; virtual freq_range_t get_tx_freq_range(size_t) = 0;
    virtual void set_tx_gain(double, size_t) = 0; virtual gain_range_t get_tx_gain_range(size_t) = 0; virtual void set_tx_bandwidth(double, size_t) = 0;
    virtual rx_streamer::sptr get_rx_stream(const stream_args_t&) = 0; virtual tx_streamer::sptr get_tx_stream(const stream_args_t&) = 0;
    virtual time_spec_t get_time_last_pps(size_t = 0) = 0; virtual void set_time_next_pps(const time_spec_t&, size_t = 0) = 0;
};
}
}
