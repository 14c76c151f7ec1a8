// Audio: SourceAudioFileBlock over generated audio files (real libav*), SinkAudioBlock over a stand-in PortAudio
#include "dsp.hpp"
#include <cstring>
#include <map>
#include <set>
#include <sys/stat.h>
#include <unistd.h>
#include "desktop_blocks/sources/source_audio_file.hpp"
#include "desktop_blocks/sinks/sink_audio.hpp"
extern "C" {
#include <libavutil/opt.h>
}
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using namespace dsp;

// contexts opened and not yet closed
static int formats, codecs, resamplers, frames;
extern "C" {
int __real_avformat_open_input(AVFormatContext**, const char*, const AVInputFormat*, AVDictionary**); void __real_avformat_close_input(AVFormatContext**);
AVCodecContext* __real_avcodec_alloc_context3(const AVCodec*); void __real_avcodec_free_context(AVCodecContext**);
void __real_swr_free(SwrContext**); AVFrame* __real_av_frame_alloc(void); void __real_av_frame_free(AVFrame**); int __real_swr_init(SwrContext*);
static bool no_frames, no_codec;   // injected allocation failures
int __wrap_avformat_open_input(AVFormatContext** c, const char* n, const AVInputFormat* f, AVDictionary** d) { int r = __real_avformat_open_input(c, n, f, d); if (r >= 0) ++formats; return r; }
void __wrap_avformat_close_input(AVFormatContext** c) { if (c && *c) --formats; __real_avformat_close_input(c); }
AVCodecContext* __wrap_avcodec_alloc_context3(const AVCodec* k) { if (no_codec) return nullptr; auto r = __real_avcodec_alloc_context3(k); if (r) ++codecs; return r; }
void __wrap_avcodec_free_context(AVCodecContext** c) { if (c && *c) --codecs; __real_avcodec_free_context(c); }
static std::set<SwrContext*> swrs;
int __wrap_swr_init(SwrContext* c) { swrs.insert(c); return __real_swr_init(c); }
void __wrap_swr_free(SwrContext** c) { if (c) swrs.erase(*c); __real_swr_free(c); }
AVFrame* __wrap_av_frame_alloc(void) { if (no_frames) return nullptr; auto r = __real_av_frame_alloc(); if (r) ++frames; return r; }
void __wrap_av_frame_free(AVFrame** f) { if (f && *f) --frames; __real_av_frame_free(f); }
}
static void none_open(const char* when) {
    resamplers = (int)swrs.size();
    CHECK(!formats && !codecs && !resamplers && !frames, "%s, %d file(s), %d decoder(s), %d resampler(s) and %d frame(s) stay allocated", when, formats, codecs, resamplers, frames);
}

static std::string path(const char* n) { const char* d = getenv("PBT_SCRATCH"); char b[300]; snprintf(b, sizeof b, "%s/%s_%d", d ? d : ".", n, (int)getpid()); return b; }
struct Gone { std::string p; ~Gone() { unlink(p.c_str()); } };
static void put(const std::string& p, const std::string& c) { FILE* f = fopen(p.c_str(), "wb"); if (!c.empty()) fwrite(c.data(), 1, c.size(), f); fclose(f); }
static std::string get(const std::string& p) { FILE* f = fopen(p.c_str(), "rb"); std::string r; char b[65536]; size_t n; while (f && (n = fread(b, 1, sizeof b, f))) r.append(b, n); if (f) fclose(f); return r; }
static void le(std::string& o, uint64_t v, int n) { while (n--) { o += (char)v; v >>= 8; } }

// a WAV file; returns the samples its bytes stand for, interleaved
enum Fmt { U8, S16, S24, S32, F32, F64 }; static const char* fmt_name[] = {"u8", "s16", "s24", "s32", "f32", "f64"}; static const int fmt_bytes[] = {1, 2, 3, 4, 4, 8};
static std::string wav(Fmt f, int ch, unsigned rate, const std::vector<double>& x, bool extensible, std::vector<float>& means, bool extra, size_t cut = 0) {
    std::string d; means.clear();
    for (double v : x) switch (f) {
        case U8:  { int q = (int)std::lrint(std::max(-128.0, std::min(127.0, v * 128))); le(d, q + 128, 1); means.push_back(q / 128.0f); break; }
        case S16: { int q = (int)std::lrint(std::max(-32768.0, std::min(32767.0, v * 32768))); le(d, (uint16_t)q, 2); means.push_back(q / 32768.0f); break; }
        case S24: { int q = (int)std::lrint(std::max(-8388608.0, std::min(8388607.0, v * 8388608))); le(d, (uint32_t)q, 3); means.push_back(q / 8388608.0f); break; }
        case S32: { long q = std::lrint(std::max(-2147483648.0, std::min(2147483647.0, v * 2147483648.0))); le(d, (uint32_t)q, 4); means.push_back((float)(q / 2147483648.0)); break; }
        case F32: { float q = (float)v; uint32_t u; memcpy(&u, &q, 4); le(d, u, 4); means.push_back(q); break; }
        case F64: { uint64_t u; memcpy(&u, &v, 8); le(d, u, 8); means.push_back((float)v); break; }
    }
    std::string h; int b = fmt_bytes[f], tag = f >= F32 ? 3 : 1; static const unsigned masks[] = {0, 4, 3, 7, 0x33, 0x37, 0x3f, 0x13f, 0x63f};
    le(h, extensible ? 0xFFFE : tag, 2); le(h, ch, 2); le(h, rate, 4); le(h, (uint64_t)rate * ch * b, 4); le(h, ch * b, 2); le(h, 8 * b, 2);
    if (extensible) { le(h, 22, 2); le(h, 8 * b, 2); le(h, masks[ch], 4); le(h, tag, 2); h += std::string("\x00\x00\x00\x00\x10\x00\x80\x00\x00\xaa\x00\x38\x9b\x71", 14); }
    std::string o = "RIFF", body = "WAVEfmt "; le(body, h.size(), 4); body += h;
    if (extra) { body += "LIST"; le(body, 12, 4); body += "INFOIART"; le(body, 0, 4); }
    body += "data"; le(body, d.size(), 4); body += d.substr(0, d.size() - std::min(cut, d.size())); if (body.size() & 1) body += '\0';
    le(o, body.size(), 4); return o + body;
}
// the same samples through an encoder and a container of libav; false: this combination is not to be had
static bool encode(const std::string& p, const char* mux, AVCodecID id, unsigned rate, int ch, const std::vector<double>& x, int second = 0) {
    const AVCodec* c = avcodec_find_encoder(id); if (!c) return false;
    AVCodecContext* k = avcodec_alloc_context3(c); AVFormatContext* f = nullptr; bool ok = false; AVFrame* fr = av_frame_alloc(); AVPacket* pk = av_packet_alloc();
    k->sample_fmt = c->sample_fmts[0]; k->sample_rate = (int)rate; av_channel_layout_default(&k->ch_layout, ch); k->time_base = {1, (int)rate}; k->bit_rate = 64000 * ch; k->strict_std_compliance = -2;
    avformat_alloc_output_context2(&f, nullptr, mux, p.c_str());
    if (f && f->oformat->flags & AVFMT_GLOBALHEADER) k->flags |= AV_CODEC_FLAG_GLOBAL_HEADER;
    if (f && avcodec_open2(k, c, nullptr) >= 0) {
        // beside the sound: pictures, before or after it in the file, or another sound
        AVStream *st = nullptr, *other = nullptr; auto beside = [&] { other = avformat_new_stream(f, nullptr); if (second == 3) { avcodec_parameters_from_context(other->codecpar, k); other->time_base = k->time_base; } else { auto* q = other->codecpar; q->codec_type = AVMEDIA_TYPE_VIDEO; q->codec_id = AV_CODEC_ID_RAWVIDEO; q->format = AV_PIX_FMT_GRAY8; q->width = q->height = 16; q->codec_tag = MKTAG('Y', '8', '0', '0'); other->time_base = {1, 25}; other->avg_frame_rate = {25, 1}; } };
        if (second == 1) beside();
        st = avformat_new_stream(f, nullptr); avcodec_parameters_from_context(st->codecpar, k); st->time_base = k->time_base; f->flags |= AVFMT_FLAG_BITEXACT;
        if (second > 1) beside();
        size_t pics = 0; auto picture = [&](size_t at) { if (!second) return true; bool w = true; if (second == 3) return w; while (w && (double)pics / 25 <= (double)at / rate) { AVPacket* v = av_packet_alloc(); av_new_packet(v, 256); for (int i = 0; i < 256; ++i) v->data[i] = (uint8_t)(i * 13 + (int)pics * 7); v->pts = v->dts = (int64_t)pics++; v->duration = 1; v->flags = AV_PKT_FLAG_KEY; av_packet_rescale_ts(v, AVRational{1, 25}, other->time_base); v->stream_index = other->index; w = av_interleaved_write_frame(f, v) >= 0; av_packet_free(&v); } return w; };
        if (avio_open(&f->pb, p.c_str(), AVIO_FLAG_WRITE) >= 0 && avformat_write_header(f, nullptr) >= 0) {
            size_t n = x.size() / ch, fs = k->frame_size ? (size_t)k->frame_size : 1024; ok = true;
            auto drain = [&] { while (avcodec_receive_packet(k, pk) == 0) { av_packet_rescale_ts(pk, k->time_base, st->time_base); pk->stream_index = st->index; if (second == 3) { AVPacket* o = av_packet_clone(pk); av_packet_make_writable(o); for (int i = 0; i < o->size; ++i) o->data[i] = (uint8_t)(o->data[i] ^ (id < AV_CODEC_ID_MP2 ? 0x2b : 0)); o->stream_index = other->index; ok &= av_interleaved_write_frame(f, o) >= 0; av_packet_free(&o); } ok &= av_interleaved_write_frame(f, pk) >= 0; } };
            for (size_t o = 0; o < n; o += fs) {
                ok &= picture(o);
                fr->nb_samples = (int)std::min(fs, n - o); fr->format = k->sample_fmt; fr->sample_rate = (int)rate; av_channel_layout_copy(&fr->ch_layout, &k->ch_layout); fr->pts = (int64_t)o; av_frame_get_buffer(fr, 0);
                bool planar = av_sample_fmt_is_planar(k->sample_fmt);
                for (int i = 0; i < fr->nb_samples; ++i) for (int j = 0; j < ch; ++j) {
                    double v = x[(o + i) * ch + j]; uint8_t* base = fr->data[planar ? j : 0]; size_t at = planar ? (size_t)i : (size_t)i * ch + j;
                    switch (av_get_packed_sample_fmt(k->sample_fmt)) {
                    case AV_SAMPLE_FMT_U8: base[at] = (uint8_t)std::lrint(std::max(-128.0, std::min(127.0, v * 128)) + 128); break;
                    case AV_SAMPLE_FMT_S16: ((int16_t*)base)[at] = (int16_t)std::lrint(std::max(-32768.0, std::min(32767.0, v * 32768))); break;
                    case AV_SAMPLE_FMT_S32: ((int32_t*)base)[at] = (int32_t)std::lrint(std::max(-2147483648.0, std::min(2147483647.0, v * 2147483648.0))); break;
                    default: ((float*)base)[at] = (float)v; }
                }
                ok &= avcodec_send_frame(k, fr) >= 0; drain(); av_frame_unref(fr);
            }
            avcodec_send_frame(k, nullptr); drain(); ok &= av_write_trailer(f) >= 0;
        }
        if (f->pb) avio_closep(&f->pb);
    }
    if (f) avformat_free_context(f); avcodec_free_context(&k); av_frame_free(&fr); av_packet_free(&pk); return ok;
}
// all samples of a file, decoded in one go: interleaved float at the file's own rate
static bool decode(const std::string& p, std::vector<float>& x, int& ch, unsigned& rate) {
    AVFormatContext* f = nullptr; x.clear(); if (avformat_open_input(&f, p.c_str(), nullptr, nullptr) < 0) return false;
    bool ok = avformat_find_stream_info(f, nullptr) >= 0; int i = ok ? av_find_best_stream(f, AVMEDIA_TYPE_AUDIO, -1, -1, nullptr, 0) : -1;
    if (i >= 0) {
        auto* par = f->streams[i]->codecpar; const AVCodec* c = avcodec_find_decoder(par->codec_id); AVCodecContext* k = avcodec_alloc_context3(c); avcodec_parameters_to_context(k, par); ok = avcodec_open2(k, c, nullptr) >= 0;
        AVPacket* pk = av_packet_alloc(); AVFrame* fr = av_frame_alloc();
        auto drain = [&] { while (avcodec_receive_frame(k, fr) == 0) { bool pl = av_sample_fmt_is_planar((AVSampleFormat)fr->format);
            for (int s = 0; s < fr->nb_samples; ++s) for (int j = 0; j < k->ch_layout.nb_channels; ++j) { uint8_t* b = fr->extended_data[pl ? j : 0]; size_t at = pl ? (size_t)s : (size_t)s * k->ch_layout.nb_channels + j;
                switch (av_get_packed_sample_fmt((AVSampleFormat)fr->format)) { case AV_SAMPLE_FMT_U8: x.push_back((b[at] - 128) / 128.0f); break; case AV_SAMPLE_FMT_S16: x.push_back(((int16_t*)b)[at] / 32768.0f); break; case AV_SAMPLE_FMT_S32: x.push_back((float)(((int32_t*)b)[at] / 2147483648.0)); break; case AV_SAMPLE_FMT_DBL: x.push_back((float)((double*)b)[at]); break; default: x.push_back(((float*)b)[at]); } }
            av_frame_unref(fr); } };
        while (ok && av_read_frame(f, pk) >= 0) { if (pk->stream_index == i) { avcodec_send_packet(k, pk); drain(); } av_packet_unref(pk); }
        if (ok) { avcodec_send_packet(k, nullptr); drain(); }
        ch = k->ch_layout.nb_channels; rate = (unsigned)k->sample_rate; av_frame_free(&fr); av_packet_free(&pk); avcodec_free_context(&k);
    }
    avformat_close_input(&f); return ok && i >= 0;
}
// one call of the resampler over everything
static std::vector<float> resampled(const std::vector<float>& x, unsigned from, unsigned to) {
    SwrContext* s = nullptr; AVChannelLayout m; av_channel_layout_default(&m, 1); swr_alloc_set_opts2(&s, &m, AV_SAMPLE_FMT_FLT, (int)to, &m, AV_SAMPLE_FMT_FLT, (int)from, 0, nullptr); swr_init(s);
    std::vector<float> y((size_t)(x.size() * (double)to / from) + 5000); uint8_t* o[] = {(uint8_t*)y.data()}; const uint8_t* in[] = {(const uint8_t*)x.data()}; size_t n = 0;
    if (!x.empty()) n = (size_t)swr_convert(s, o, (int)y.size(), in, (int)x.size());
    o[0] = (uint8_t*)(y.data() + n); n += (size_t)swr_convert(s, o, (int)(y.size() - n), nullptr, 0); y.resize(n); swr_free(&s); return y;
}

static std::vector<double> audio(pbt::Src& s, size_t n, int ch, double peak) {
    pbt::Bulk r(s.subseed()); std::vector<double> x(n * ch); int kind = (int)s.below(3); std::vector<double> f(ch); for (auto& v : f) v = r.real(0.002, 0.4);
    for (size_t i = 0; i < n; ++i) for (int c = 0; c < ch; ++c) x[i * ch + c] = kind == 0 ? r.real(-peak, peak) : kind == 1 ? peak * std::sin(f[c] * (double)i) : peak * ((double)((i * 7 + c) % 1000) / 1000 - 0.5);
    return x;
}
static int eofs; static std::string eof_name; static std::function<void()> at_eof; static bool no_callback;
static void on_eof(const char* n) { ++eofs; eof_name = n ? n : ""; if (at_eof) at_eof(); }

// plays the file; returns what came out
static std::vector<float> play(pbt::Src& s, const std::string& p, unsigned rate, bool repeat, size_t goal, size_t& calls) {
    Out<float> out(s.chance(1, 2) ? s.size(1, 6000) : s.size(1, 300)); bool cb = !s.chance(1, 5); eofs = 0; size_t at = 0; at_eof = [&] { at = out.count(); };
    s.note("%s at %u Hz%s, out capacity %zu; ", repeat ? "repeating" : "once", rate, cb ? "" : ", no callback", out.cap);
    SourceAudioFileBlock<float> b("src", p.c_str(), rate, repeat, cb ? &on_eof : nullptr); Rig r(s); r.outs = {&out}; size_t idle = 0; bool over = false;
    r.call = [&]() -> Res {
        size_t n0 = out.count(), room = out.room(); auto x = b.procedure(&out); bool moved = out.count() > n0; idle = moved || !room ? 0 : idle + 1;
        if (!repeat && !moved && room && idle > 1) over = true;   // calls with space and nothing to come
        CHECK(idle <= 8 || over, "the source gives nothing although it repeats and there is space");
        return over && x.is_err() && cler::is_fatal(x.unwrap_err()) ? Res(cler::Empty{}) : x;
    };
    r.must_progress = [] { return false; }; r.after = [&](const std::vector<size_t>&, const std::vector<size_t>& q) { r.split_calls += q[0] > 0; };
    size_t rounds = 0; r.run(15, [&] { if (over) return true; if (repeat) return out.count() >= goal; return ++rounds && false; });
    calls = r.split_calls;
    CHECK(repeat ? eofs == 0 : eofs == (cb ? 1 : 0), "the end was reported %d times by a source that %s", eofs, repeat ? "repeats" : "plays once");
    if (eofs) { CHECK(at == out.got.size(), "the end was reported after %zu of %zu samples", at, out.got.size()); CHECK(eof_name == p, "the end was reported for '%s'", eof_name.c_str()); }
    at_eof = nullptr; return out.got;
}
// the weights with which each channel enters the mono output, measured on frames that carry one channel each
static void compare(const std::vector<float>& got, const std::vector<float>& x, int ch, double tol, const std::vector<double>& w, size_t n, const char* what) {
    for (size_t i = 0; i < got.size(); ++i) { double want = 0; for (int c = 0; c < ch; ++c) want += w[c] * x[(i % n) * ch + c]; CHECK(std::abs(got[i] - want) <= tol, "%s: sample %zu is %.9g, the file's %zu samples mean %.9g there", what, i, got[i], n, want); }
}
static std::vector<double> weights(int ch, const std::vector<float>& got, const std::vector<float>& x, const char* what) {
    std::vector<double> w(ch, 1.0); if (ch == 1) return w;
    for (int c = 0; c < ch; ++c) { CHECK((size_t)c < got.size(), "%s: only %zu samples came out", what, got.size()); w[c] = got[c] / x[(size_t)c * ch + c]; CHECK(w[c] > -1e-6 && w[c] < 1.01, "%s: channel %d of %d enters the output with weight %.6g", what, c, ch, w[c]); }
    CHECK(std::abs(w[0] - w[1]) < 1e-5 && w[0] > 0.2, "%s: the left and right channels enter the output with weights %.6g and %.6g", what, w[0], w[1]); return w;
}
// leading frames that carry one channel each
static void probes(std::vector<double>& x, int ch) { for (int c = 0; c < ch; ++c) for (int d = 0; d < ch; ++d) if ((size_t)(c * ch + d) < x.size()) x[(size_t)c * ch + d] = c == d ? 0.5 : 0; }

static void wave(pbt::Src& s, bool repeat) {
    Gone g{path("audio.wav")}; Fmt f = (Fmt)s.below(6); int ch = (int)s.weighted({4, 4, 1, 1}) + 1; if (ch > 2) ch = (int)s.range(3, 8); unsigned rate = (unsigned)s.pick({48000, 8000, 44100, 96000, 22050});
    bool ext = ch > 2 ? s.flip() : s.chance(1, 4); size_t n = s.chance(1, 20) ? 0 : ch + s.size(1, s.flip() ? 300 : 20000); auto x = audio(s, n, ch, 0.9); probes(x, ch); std::vector<float> m;
    put(g.p, wav(f, ch, rate, x, ext, m, s.chance(1, 4))); s.note("WAV %s, %d channels, %u Hz, %zu samples%s, ", fmt_name[f], ch, rate, n, ext ? ", extensible" : "");
    if (!n) { bool thrown = false; size_t k; std::vector<float> y; try { y = play(s, g.p, rate, false, 0, k); } catch (const std::runtime_error&) { thrown = true; } CHECK(y.empty(), "%zu samples from a file without any", y.size()); none_open("after the block is gone"); s.label(true, thrown ? "empty, refused" : "empty, played"); return; }
    size_t goal = repeat ? n + s.below(std::min<size_t>(n * 3, 30000) + 2000) : n, calls = 0; auto y = play(s, g.p, rate, repeat, goal, calls); none_open("after the block is gone");
    if (!repeat) CHECK(y.size() == n, "%zu samples came out of a file of %zu", y.size(), n);
    auto w = weights(ch, y, m, "mixing"); compare(y, m, ch, 2e-6 * ch, w, n, repeat ? "repeating" : "playing");
    s.nontrivial(calls > 1); s.label(ch > 2, "more than two channels"); s.label(repeat && y.size() > n, "wrapped around"); s.label(n > 4096, "long");
}
PROPERTY(play_wav, 900, 16000, "a PCM or float WAV file of 1 to 8 channels came out over at least two calls, sample for sample") { wave(s, false); }
PROPERTY(repeat_wav, 600, 10000, "a WAV file of 1 to 8 channels repeated over at least two calls") { wave(s, true); }

struct Kind { const char* mux; AVCodecID id; bool lossless; const char* name; };
static const Kind kinds[] = {{"flac", AV_CODEC_ID_FLAC, true, "FLAC"}, {"aiff", AV_CODEC_ID_PCM_S16BE, true, "AIFF"}, {"wv", AV_CODEC_ID_WAVPACK, true, "WavPack"}, {"ipod", AV_CODEC_ID_ALAC, true, "ALAC"}, {"ogg", AV_CODEC_ID_FLAC, true, "Ogg FLAC"}, {"matroska", AV_CODEC_ID_FLAC, true, "Matroska FLAC"},
    {"mp2", AV_CODEC_ID_MP2, false, "MP2"}, {"ipod", AV_CODEC_ID_AAC, false, "AAC in MP4"}, {"adts", AV_CODEC_ID_AAC, false, "AAC"}, {"ogg", AV_CODEC_ID_VORBIS, false, "Vorbis"}, {"wav", AV_CODEC_ID_ADPCM_IMA_WAV, false, "ADPCM"}, {"ac3", AV_CODEC_ID_AC3, false, "AC-3"}};
PROPERTY(play_coded, 500, 9000, "a compressed file (12 codecs and containers) came out over at least two calls, as a straight decoding gives it") {
    Gone g{path("audio")}; const Kind& k = kinds[s.below(sizeof kinds / sizeof *kinds)]; int ch = (int)s.below(2) + 1; unsigned rate = (unsigned)s.pick({48000, 44100, 32000}); if (k.id == AV_CODEC_ID_VORBIS) ch = 2;
    size_t n = ch + s.size(1, s.flip() ? 3000 : 30000); auto x = audio(s, n, ch, 0.4); if (k.lossless) probes(x, ch);
    s.note("%s, %d channels, %u Hz, %zu samples, ", k.name, ch, rate, n);
    if (!encode(g.p, k.mux, k.id, rate, ch, x)) { s.label(true, "not encodable"); return; }
    std::vector<float> ref; int dch = 0; unsigned drate = 0; if (!decode(g.p, ref, dch, drate) || ref.empty()) { s.label(true, "not decodable"); return; }
    if (k.lossless) CHECK(dch == ch && drate == rate && ref.size() == n * ch, "harness: lossless %s gives %zu values of %zu", k.name, ref.size(), n * ch);
    size_t calls = 0; n = ref.size() / dch; auto y = play(s, g.p, drate, false, n, calls); none_open("after the block is gone");
    CHECK(y.size() == n, "%zu samples came out of a %s file that decodes to %zu", y.size(), k.name, n);
    std::vector<double> w(dch, dch == 1 ? 1.0 : 0.70710678); if (k.lossless) w = weights(dch, y, ref, "mixing"); compare(y, ref, dch, 4e-6, w, n, k.name);
    s.nontrivial(calls > 1); s.label(true, k.name);
}
static const Kind films[] = {{"nut", AV_CODEC_ID_PCM_S16LE, true, "NUT"}, {"avi", AV_CODEC_ID_PCM_S16LE, true, "AVI"}, {"avi", AV_CODEC_ID_MP2, false, "AVI with MP2"}, {"nut", AV_CODEC_ID_FLAC, true, "NUT with FLAC"}, {"matroska", AV_CODEC_ID_PCM_S16LE, true, "Matroska"}};
PROPERTY(play_film, 300, 5000, "the sound of a file that holds pictures or a second sound as well came out over at least two calls, as a straight decoding gives it") {
    Gone g{path("film")}; const Kind& k = films[s.below(sizeof films / sizeof *films)]; int second = k.id == AV_CODEC_ID_PCM_S16LE && !strcmp(k.mux, "matroska") ? 3 : (int)s.range(1, 2), ch = (int)s.below(2) + 1; unsigned rate = (unsigned)s.pick({48000, 44100, 32000}); bool repeat = k.lossless && k.id == AV_CODEC_ID_PCM_S16LE && s.chance(1, 4);
    size_t n = ch + 2000 + s.size(1, 30000); auto x = audio(s, n, ch, 0.4); if (k.lossless) probes(x, ch);
    s.note("%s, %s, %d channels, %u Hz, %zu samples, ", k.name, second == 1 ? "pictures first" : second == 2 ? "pictures second" : "another sound", ch, rate, n);
    if (!encode(g.p, k.mux, k.id, rate, ch, x, second)) { s.label(true, "not encodable"); return; }
    std::vector<float> ref; int dch = 0; unsigned drate = 0; if (!decode(g.p, ref, dch, drate) || ref.empty()) { s.label(true, "not decodable"); return; }
    if (k.lossless) s.note("[decodes to %zu] ", ref.size() / dch);
    size_t calls = 0; n = ref.size() / dch; auto y = play(s, g.p, drate, repeat, repeat ? n + n / 3 : n, calls); none_open("after the block is gone");
    if (!repeat) CHECK(y.size() == n, "%zu samples came out of a %s file that decodes to %zu", y.size(), k.name, n);
    std::vector<double> w(dch, dch == 1 ? 1.0 : 0.70710678); if (k.lossless && second != 3) w = weights(dch, y, ref, "mixing"); compare(y, ref, dch, 4e-6, w, n, k.name);
    s.nontrivial(calls > 1); s.label(true, k.name); s.label(repeat, "repeating");
}
PROPERTY(memory, 120, 2000, "a file was opened and played at least in part, three times over") {
    Gone g{path("audio")}; bool film = s.flip(); const Kind& k = film ? films[s.below(sizeof films / sizeof *films)] : kinds[s.below(sizeof kinds / sizeof *kinds)]; int second = film ? strcmp(k.mux, "matroska") ? 1 : 3 : 0, ch = k.id == AV_CODEC_ID_VORBIS ? 2 : (int)s.range(1, 2); size_t n = 2000 + s.size(1, 20000); auto x = audio(s, n, ch, 0.4);
    if (!encode(g.p, k.mux, k.id, 48000, ch, x, second)) { s.label(true, "not encodable"); return; }
    unsigned rate = (unsigned)s.pick({48000, 44100}); bool repeat = s.chance(1, 3); size_t turns = s.size(1, 60); s.note("%s, %d channels, %zu samples, %s at %u Hz, %zu calls", k.name, ch, n, repeat ? "repeating" : "once", rate, turns); size_t heap[3];
    Out<float> out(2000); eofs = 0; at_eof = nullptr; std::vector<float> sink(4096);
    try { SourceAudioFileBlock<float> b("src", g.p.c_str(), rate, repeat, &on_eof); } catch (const std::runtime_error&) { s.label(true, "refused"); return; }
    for (size_t& h : heap) { { SourceAudioFileBlock<float> b("src", g.p.c_str(), rate, repeat, &on_eof); for (size_t i = 0; i < turns; ++i) { (void)b.procedure(&out); out.drain(SIZE_MAX); out.got.clear(); } } out.got.shrink_to_fit(); h = __sanitizer_get_current_allocated_bytes(); }
    CHECK(heap[2] == heap[1], "%zu bytes stay allocated after a life of the block", heap[2] - heap[1]); none_open("after the block is gone"); s.nontrivial(turns > 2); s.label(film, "film");
}
PROPERTY(play_resampled, 500, 9000, "the file was played at another rate than its own over at least two calls") {
    Gone g{path("audio.wav")}; Fmt f = (Fmt)s.below(6); int ch = (int)s.below(2) + 1; auto any = [&] { return (unsigned)(s.flip() ? s.pick({48000, 8000, 44100, 96000, 22050, 11025, 16000, 32000}) : s.range(4000, 100000)); };
    unsigned rate = any(), to = any(); bool repeat = s.chance(1, 3), flac = s.chance(1, 3); if (repeat && flac) rate = (unsigned)s.pick({48000, 44100, 32000, 96000});   // (libav cannot rewind FLAC files of odd rates)
    size_t n = 2000 + s.size(1, 20000); auto x = audio(s, n, ch, 0.7); std::vector<float> m;
    std::string w = wav(f, ch, rate, x, false, m, false); put(g.p, w); s.note("WAV %s, %d channels, %u Hz, %zu samples, ", fmt_name[f], ch, rate, n);
    if (flac) { s.note("as FLAC, "); int c2; unsigned r2; if (!encode(g.p, "flac", AV_CODEC_ID_FLAC, rate, ch, x) || !decode(g.p, m, c2, r2)) { s.label(true, "not encodable"); return; } }
    std::vector<float> mono(n); for (size_t i = 0; i < n; ++i) mono[i] = ch == 1 ? m[i] : (m[2 * i] + m[2 * i + 1]) * 0.70710678f;
    std::vector<float> src = mono; size_t passes = repeat ? 1 + s.below(3) : 1; for (size_t p = 1; p < passes + (repeat ? 1 : 0); ++p) src.insert(src.end(), mono.begin(), mono.end());
    auto want = resampled(src, rate, to); size_t goal = (size_t)((double)n * passes * to / rate), calls = 0; auto y = play(s, g.p, to, repeat, goal, calls); none_open("after the block is gone");
    if (!repeat) CHECK(y.size() == want.size(), "%zu samples came out, the whole file at %u Hz has %zu", y.size(), to, want.size());
    for (size_t i = 0; i < std::min(y.size(), repeat ? goal - std::min<size_t>(goal, 100) : want.size()); ++i) CHECK(std::abs(y[i] - want[i]) < 2e-5, "sample %zu is %.9g, resampling the file in one go gives %.9g", i, y[i], want[i]);
    s.nontrivial(calls > 1 && rate != to); s.label(repeat && passes > 1, "wrapped around"); s.label(to > rate, "up"); s.label(to < rate, "down");
}
static int quiet = (av_log_set_level(AV_LOG_QUIET), 0);
PROPERTY(damaged, 900, 20000, "the file opened although it was cut, altered or made of random bytes") {
    Gone g{path("audio")}; const Kind& k = kinds[s.below(sizeof kinds / sizeof *kinds)]; int ch = (int)s.below(2) + 1; size_t n = s.size(0, 6000); auto x = audio(s, n, ch, 0.5); std::vector<float> m;
    int how = (int)s.below(5); bool made = how && encode(g.p, k.mux, k.id, 48000, ch, x); if (!made) put(g.p, wav((Fmt)s.below(6), ch, 48000, x, s.flip(), m, s.flip(), s.chance(1, 2) ? s.size(0, 3000) : 0));
    std::string c = get(g.p); pbt::Bulk r(s.subseed());
    switch (s.below(5)) {
    case 0: c.resize(s.below(c.size() + 1)); break;
    case 1: for (size_t i = 0, q = s.size(1, 20); i < q && !c.empty(); ++i) c[r.below(c.size())] = (char)r.u32(); break;
    case 2: for (size_t i = 0, q = s.size(1, 6); i < q && !c.empty(); ++i) c[r.below(std::min<size_t>(c.size(), 120))] = (char)r.u32(); break;
    case 3: { size_t a = r.below(c.size() + 1), b = r.below(3000); c.erase(a, b); break; }
    default: c.assign(s.size(0, 3000), 0); for (auto& v : c) v = (char)r.u32(); }
    put(g.p, c); bool repeat = s.chance(1, 3), fail = s.chance(1, 10); s.note("%s, %zu bytes, %s", made ? k.name : "WAV", c.size(), repeat ? "repeating" : "once");
    Out<float> out(s.size(1, 4000)); eofs = 0; at_eof = nullptr; bool opened = false, over = false; if (fail) (s.flip() ? no_frames : no_codec) = true;
    try {
        SourceAudioFileBlock<float> b("src", g.p.c_str(), 48000, repeat, &on_eof); opened = true;
        for (int i = 0; i < 60 && !over; ++i) { auto q = b.procedure(&out); over |= q.is_err() && cler::is_fatal(q.unwrap_err()); if (q.is_ok()) over |= eofs > 0; out.drain(s.chance(1, 8) ? 1 : SIZE_MAX); }
    } catch (const std::runtime_error&) {}
    bool injected = no_frames || no_codec; no_frames = no_codec = false; if (injected) CHECK(!opened, "a block came into being without a decoder or a frame");
    none_open(opened ? "after the block is gone" : "after the constructor threw"); CHECK(eofs <= 1, "the end was reported %d times", eofs);
    s.nontrivial(opened); s.label(opened, "opened"); s.label(!opened, "refused"); s.label(repeat && opened, "repeating"); s.label(!out.got.empty(), "played");
}
PROPERTY(missing, 200, 2000, "the file does not exist, is a directory, or has no audio") {
    Gone g{path("nofile")}; int w = (int)s.below(3); std::string p = g.p; if (w == 1) p = "."; if (w == 2) put(g.p, "just a text, no audio at all\n"); bool thrown = false;
    try { SourceAudioFileBlock<float> b("src", p.c_str(), 48000, s.flip(), nullptr); } catch (const std::runtime_error&) { thrown = true; }
    CHECK(thrown, "no error for a source without audio"); none_open("after the constructor threw"); s.nontrivial();
}

// ---- the sink, over a stand-in PortAudio
struct FakeStream { bool open = false, started = false; double rate = 0; int dev = 0; std::vector<float> got; };
static struct { int inits = 0, live = 0, opened = 0, closed = 0, devices = 3, def = 0; bool init_fails = false, open_fails = false, start_fails = false, no_info = false; FakeStream st; std::vector<int> outs; std::function<PaError(const float*, unsigned long)> write; std::string bad; } pa;
static PaDeviceInfo infos[16]; static std::string names[16];
extern "C" {
PaError Pa_Initialize(void) { if (pa.init_fails) return paInternalError; ++pa.inits; ++pa.live; return paNoError; }
PaError Pa_Terminate(void) { if (pa.live <= 0) { pa.bad = "Pa_Terminate without Pa_Initialize"; return paNotInitialized; } if (--pa.live == 0 && pa.st.open) pa.bad = "Pa_Terminate with an open stream"; return paNoError; }
static bool up(const char* f) { if (pa.live <= 0) { pa.bad = std::string(f) + " before Pa_Initialize or after Pa_Terminate"; return false; } return true; }
PaDeviceIndex Pa_GetDeviceCount(void) { return up("Pa_GetDeviceCount") ? pa.devices : paNotInitialized; }
PaDeviceIndex Pa_GetDefaultOutputDevice(void) { return up("Pa_GetDefaultOutputDevice") && pa.devices > 0 ? pa.def : paNoDevice; }
const PaDeviceInfo* Pa_GetDeviceInfo(PaDeviceIndex i) { return up("Pa_GetDeviceInfo") && i >= 0 && i < pa.devices && !pa.no_info ? &infos[i] : nullptr; }
const char* Pa_GetErrorText(PaError) { return "stand-in error"; }
PaError Pa_OpenStream(PaStream** s, const PaStreamParameters* in, const PaStreamParameters* o, double rate, unsigned long, PaStreamFlags, PaStreamCallback* cb, void*) {
    if (!up("Pa_OpenStream")) return paNotInitialized; if (pa.open_fails) return paInvalidSampleRate;
    if (in || !o || cb) pa.bad = "opened otherwise than as a blocking output"; else if (o->channelCount != 1 || o->sampleFormat != paFloat32) pa.bad = "opened otherwise than as mono float32"; else if (o->device < 0 || o->device >= pa.devices) pa.bad = "opened with an invalid device";
    if (o->device >= 0 && o->device < pa.devices && infos[o->device].maxOutputChannels < 1) return paInvalidChannelCount;
    pa.st = FakeStream{}; pa.st.open = true; pa.st.rate = rate; pa.st.dev = o->device; ++pa.opened; *s = &pa.st; return paNoError;
}
PaError Pa_StartStream(PaStream* s) { if (s != &pa.st || !pa.st.open) { pa.bad = "Pa_StartStream on no stream"; return paBadStreamPtr; } if (pa.start_fails) return paInternalError; pa.st.started = true; return paNoError; }
PaError Pa_StopStream(PaStream* s) { if (s != &pa.st || !pa.st.started) { pa.bad = "Pa_StopStream on no stream"; return paBadStreamPtr; } pa.st.started = false; return paNoError; }
PaError Pa_AbortStream(PaStream* s) { (void)s; pa.bad = "Pa_AbortStream drops what is still to be played"; pa.st.started = false; return paNoError; }
PaError Pa_CloseStream(PaStream* s) { if (s != &pa.st || !pa.st.open) { pa.bad = "Pa_CloseStream on no stream"; return paBadStreamPtr; } if (pa.st.started) pa.bad = "Pa_CloseStream drops what is still to be played"; pa.st.open = false; ++pa.closed; return paNoError; }
PaError Pa_WriteStream(PaStream* s, const void* b, unsigned long n) { if (s != &pa.st || !pa.st.started) { pa.bad = "Pa_WriteStream on a stream not started"; return paBadStreamPtr; } return pa.write((const float*)b, n); }
}
static void devices(pbt::Src& s) {
    pa = {}; pa.devices = (int)s.pick({3, 1, 5, 0}); for (int i = 0; i < pa.devices; ++i) { names[i] = "device " + std::to_string(i); infos[i] = PaDeviceInfo{}; infos[i].structVersion = 2; infos[i].name = names[i].c_str(); infos[i].maxOutputChannels = s.chance(3, 4) ? (int)s.range(1, 8) : 0; infos[i].defaultHighOutputLatency = 0.03; }
    pa.def = pa.devices ? (int)s.below(pa.devices) : paNoDevice; pa.bad.clear();
}
static void released(const char* when) { CHECK(pa.bad.empty(), "PortAudio misused: %s", pa.bad.c_str()); CHECK(!pa.st.open && pa.opened == pa.closed, "%s, a stream stays open", when); CHECK(pa.live == 0, "%s, PortAudio stays initialized (%d of %d)", when, pa.live, pa.inits); }
PROPERTY(sink_plays, 1500, 30000, "samples played over at least two calls, underflows and errors of the device at generated writes") {
    devices(s); pa.devices = std::max(pa.devices, 1); names[0] = "d"; infos[0].name = "d"; for (auto& i : infos) i.maxOutputChannels = 2; pa.def = (int)s.below(pa.devices);
    int dev = s.flip() ? (int)paNoDevice : (int)s.below(pa.devices); double rate = s.flip() ? 48000 : s.real(1, 1e6); size_t buf = s.flip() ? 0 : 1024 + s.size(0, 5000); bool fails = s.chance(1, 3); size_t die = fails ? s.size(0, 8) : SIZE_MAX, writes = 0, under = 0; bool dead = false; size_t calls = 0;
    auto x = signal<float>(s, s.size(1, 12000), 1); pbt::Bulk r(s.subseed()); bool uf = s.flip(); s.note("%zu samples, device %d, %.0f Hz, buffer %zu, %s", x.size(), dev, rate, buf, fails ? "device fails" : uf ? "underflows" : "");
    pa.write = [&](const float* b, unsigned long n) -> PaError { if (writes++ == die) { dead = true; return paUnanticipatedHostError; } CHECK(n > 0, "an empty write"); pa.st.got.insert(pa.st.got.end(), b, b + n); if (uf && !r.below(3)) { ++under; return paOutputUnderflowed; } return paNoError; };
    {
        SinkAudioBlock b("sink", rate, dev, buf); CHECK(pa.st.started && pa.st.rate == rate && pa.st.dev == (dev == paNoDevice ? pa.def : dev), "opened device %d at %.0f Hz", pa.st.dev, pa.st.rate);
        In<float> in(&b.in, x); auto call = [&] { size_t l = b.in.size(); auto q = b.procedure(); calls += l > b.in.size(); if (dead) CHECK(q.is_err() && cler::is_fatal(q.unwrap_err()), "a failing device goes unnoticed"); else { CHECK(!q.is_err() || !cler::is_fatal(q.unwrap_err()), "the sink stopped although the device did not fail"); if (l) CHECK(b.in.size() < l, "no progress with %zu samples waiting", l); } };
        while (s.more(15) && !dead) { if (s.flip()) { size_t n = in.feed(s.size(1, 5000), (unsigned)s.below(2)); s.note(" feed%zu", n); } else { s.note(" call"); call(); } }
        size_t piece = s.flip() ? s.size(1, 3000) : SIZE_MAX; for (size_t i = 0; !dead && (in.left() || b.in.size()); ++i) { in.feed(i < 60 ? piece : SIZE_MAX, 0); call(); }
    }
    auto& got = pa.st.got; CHECK(dead || got.size() == x.size(), "%zu samples were played of %zu", got.size(), x.size());
    for (size_t i = 0; i < got.size(); ++i) CHECK(i < x.size() && !memcmp(&got[i], &x[i], 4), "sample %zu played is %.9g", i, got[i]);
    released("after the sink is gone"); s.nontrivial(calls > 1); s.label(dead, "device failed"); s.label(under > 0, "underflow");
}
PROPERTY(sink_refuses, 600, 8000, "the sink was refused: no such device, no output, a failing PortAudio, or invalid arguments") {
    devices(s); pa.write = [](const float*, unsigned long) -> PaError { return paNoError; }; int dev = (int)s.pick({-1, 0, 1, 2, 3, 7, -2, -9}); double rate = s.pick({0, 1, 2}) ? 48000.0 : s.pick({0, 1}) ? -s.real(0, 100) : 1.5e6; size_t buf = s.pick({0, 1, 2}) ? 0 : s.pick({0, 1}) ? 1 + s.below(900) : 2000;
    switch (s.below(6)) { case 0: pa.init_fails = true; break; case 1: pa.open_fails = true; break; case 2: pa.start_fails = true; break; case 3: pa.no_info = true; break; default: break; }
    int d = dev == paNoDevice ? pa.def : dev; bool ok = rate > 0 && rate <= 1e6 && (!buf || buf >= 1024) && !pa.init_fails && !pa.open_fails && !pa.start_fails && d >= 0 && d < pa.devices && infos[d].maxOutputChannels > 0, made = false;
    s.note("device %d of %d (default %d), %.1f Hz, buffer %zu%s", dev, pa.devices, pa.def, rate, buf, pa.no_info ? ", no device info" : pa.init_fails ? ", init fails" : pa.open_fails ? ", open fails" : pa.start_fails ? ", start fails" : "");
    try { SinkAudioBlock b("sink", rate, dev, buf); made = true; CHECK(pa.st.started, "the sink exists without a started stream"); } catch (const std::exception&) {}
    if (!pa.no_info) CHECK(made == ok, "the sink was %s", made ? "made" : "refused"); else if (!ok) CHECK(!made, "the sink was made");
    released(made ? "after the sink is gone" : "after the constructor threw"); s.nontrivial(!made); s.label(pa.no_info, "no device info");
}
