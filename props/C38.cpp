// The window: GuiManager over a stand-in display that follows the rules of GLFW, OpenGL and Dear ImGui
#include "pbt.hpp"
#include <cstring>
#include <memory>
#include <stdexcept>
#include <string>
#include <string_view>
#include "desktop_blocks/gui/gui_manager.hpp"
extern "C" size_t __sanitizer_get_current_allocated_bytes();

static void rules(const char* when) { CHECK(disp::wrong.empty(), "%s: %s", when, disp::wrong[0].c_str()); }
static void nothing_left(const char* when) {
    CHECK(!disp::gl_backend && !disp::glfw_backend, "%s: back ends stay", when); CHECK(!disp::implot, "%s: the plots' context stays", when); CHECK(!disp::imgui, "%s: the interface's context stays", when);
    CHECK(!disp::windows, "%s: %d window(s) stay open", when, disp::windows); CHECK(!disp::inits, "%s: the display stays initialised", when);
}
PROPERTY(window, 4000, 80000, "windows of generated size and title are opened one after another (some refused by the display), drawn, resized, asked to close and destroyed; non-trivial: a frame was shown or a window refused") {
    disp::wrong.clear(); size_t shown = 0, refused = 0, lives = 1 + s.below(4); disp::refuse_init = disp::refuse_window = false;
    // a minimised window has no size
    auto size = [&](GLFWwindow* x) { bool gone = s.chance(1, 5); x->fb_w = gone ? 0 : 1 + (int)s.below(5000); x->fb_h = gone ? 0 : 1 + (int)s.below(5000); };
    for (size_t l = 0; l < lives; ++l) {
        int w = 1 + (int)s.size(0, 4000), h = 1 + (int)s.size(0, 3000); std::string full; size_t n = s.size(0, 60); for (size_t i = 0; i < n; ++i) full += (char)(1 + s.below(255));
        size_t at = s.below(n + 1), len = s.below(n - at + 1); std::unique_ptr<char[]> exact(new char[len + 1]); bool tail = s.flip();
        if (!tail) at = n - len;                                   // up to the end of the text, as with a whole string
        std::string want = full.substr(at, len); std::string_view title(full.data() + at, len);
        unsigned how = (unsigned)s.weighted({6, 1, 1}); disp::refuse_init = how == 1; disp::refuse_window = how == 2;
        s.note("%dx%d \"%zu of %zu bytes\"%s; ", w, h, len, n, how == 1 ? " no display" : how == 2 ? " no window" : "");
        std::unique_ptr<cler::GuiManager> g; std::string what;
        try { g = std::make_unique<cler::GuiManager>(w, h, title); } catch (const std::runtime_error& e) { what = e.what(); }
        rules("opening");
        if (how) { ++refused; CHECK(!g, "a window is made though the display refuses"); CHECK(!what.empty(), "the error says nothing"); nothing_left("after a refused window"); continue; }
        CHECK(g != nullptr, "an error where nothing fails: %s", what.c_str());
        CHECK(disp::windows == 1 && disp::inits > 0 && disp::imgui == 1 && disp::implot == 1 && disp::gl_backend == 1 && disp::glfw_backend == 1, "something is missing or there twice");
        GLFWwindow* win = disp::all[0]; CHECK(win->w == w && win->h == h, "the window has %dx%d", win->w, win->h); CHECK(win->title == want, "the title has %zu bytes, not %zu", win->title.size(), want.size());
        size_t steps = s.size(0, 20); disp::swaps = disp::polls = 0; size_t frames = 0; bool close = false, open = false;
        for (size_t i = 0; i < steps; ++i) {
            switch (s.weighted({5, 2, 1})) {
            case 0: g->begin_frame(); rules("beginning a frame"); ++frames; CHECK((size_t)disp::polls == frames, "%d rounds of events for %zu frames", disp::polls, frames); open = true;
                    if (s.chance(1, 20)) { i = steps; break; }          // destroyed within a frame
                    if (s.chance(1, 3)) size(win);
                    g->end_frame(); open = false; rules("ending a frame"); ++shown; CHECK((size_t)disp::swaps == frames, "%d pictures shown for %zu frames", disp::swaps, frames);
                    if (win->fb_w && win->fb_h) CHECK(disp::view[0] == 0 && disp::view[1] == 0 && disp::view[2] == win->fb_w && disp::view[3] == win->fb_h, "%dx%d is drawn where the window has %dx%d", disp::view[2], disp::view[3], win->fb_w, win->fb_h); break;
            case 1: size(win); break;
            default: close = s.flip(); win->close = close;
            }
            CHECK(g->should_close() == close, "should_close is %d", g->should_close());
        }
        (void)open; g.reset(); rules("closing"); nothing_left("after closing");
    }
    s.nontrivial(shown || refused); s.label(refused, "refused"); s.label(lives > 1, "several windows");
}
