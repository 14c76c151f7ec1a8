// Stand-in for GLFW and OpenGL: one display that follows the rules of both and remembers what was done
#pragma once
#include <string>
#include <vector>
struct GLFWwindow { std::string title; int w, h, fb_w, fb_h; bool close; };
namespace disp {
inline bool refuse_init, refuse_window; inline int inits, windows, imgui, implot, glfw_backend, gl_backend, swaps, polls, interval;
inline GLFWwindow* current; inline int view[4]; inline bool cleared, drawn, in_frame, gl_new, glfw_new, rendered, multisample; inline std::vector<std::string> wrong; inline int hints[4];
inline void need(bool ok, const char* what) { if (!ok) wrong.push_back(what); }
inline std::vector<GLFWwindow*> all;
}
enum { GLFW_CONTEXT_VERSION_MAJOR, GLFW_CONTEXT_VERSION_MINOR, GLFW_OPENGL_PROFILE, GLFW_SAMPLES, GLFW_OPENGL_CORE_PROFILE = 77 };
enum { GL_MULTISAMPLE = 1, GL_COLOR_BUFFER_BIT = 2 };
#define GLFW_TRUE 1
#define GLFW_FALSE 0
inline int glfwInit() { if (disp::refuse_init) return 0; ++disp::inits; return 1; }
inline void glfwTerminate() { disp::need(!disp::imgui && !disp::gl_backend && !disp::glfw_backend, "the display is shut down under its users"); for (auto w : disp::all) { delete w; } disp::all.clear(); disp::windows = 0; disp::current = nullptr; disp::inits = 0; }
inline void glfwWindowHint(int h, int v) { disp::need(disp::inits > 0, "hint before initialisation"); disp::hints[h & 3] = v; }
inline GLFWwindow* glfwCreateWindow(int w, int h, const char* t, void*, void*) { disp::need(disp::inits > 0, "window before initialisation"); if (disp::refuse_window) return nullptr; auto p = new GLFWwindow{t, w, h, w * 2, h * 2, false}; disp::all.push_back(p); ++disp::windows; return p; }
inline void glfwDestroyWindow(GLFWwindow* w) { if (!w) return; bool known = false; for (size_t i = 0; i < disp::all.size(); ++i) if (disp::all[i] == w) { disp::all.erase(disp::all.begin() + (long)i); known = true; break; } disp::need(known, "a window is destroyed twice"); disp::need(!disp::gl_backend && !disp::glfw_backend, "the window is destroyed under its users"); if (known) { if (disp::current == w) disp::current = nullptr; --disp::windows; delete w; } }
inline void glfwMakeContextCurrent(GLFWwindow* w) { disp::current = w; }
inline void glfwSwapInterval(int n) { disp::need(disp::current, "swap interval without a context"); disp::interval = n; }
inline void glfwPollEvents() { disp::need(disp::inits > 0, "events without a display"); ++disp::polls; }
inline void glfwGetFramebufferSize(GLFWwindow* w, int* a, int* b) { disp::need(w, "size of no window"); *a = w->fb_w; *b = w->fb_h; }
inline void glfwSwapBuffers(GLFWwindow* w) { disp::need(w == disp::current && w, "buffers swapped without a context"); disp::need(disp::drawn, "a frame is shown that was not drawn"); ++disp::swaps; disp::drawn = disp::cleared = false; }
inline int glfwWindowShouldClose(GLFWwindow* w) { return w->close ? 1 : 0; }
inline void glEnable(int x) { disp::need(disp::current, "drawing without a context"); if (x == GL_MULTISAMPLE) disp::multisample = true; }
inline void glViewport(int a, int b, int c, int d) { disp::need(disp::current, "drawing without a context"); int v[] = {a, b, c, d}; for (int i = 0; i < 4; ++i) disp::view[i] = v[i]; }
inline void glClearColor(float, float, float, float) { disp::need(disp::current, "drawing without a context"); }
inline void glClear(int m) { disp::need(disp::current, "drawing without a context"); if (m & GL_COLOR_BUFFER_BIT) { disp::cleared = true; disp::drawn = false; } }
