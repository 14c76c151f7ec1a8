#pragma once
#include "imgui.h"
inline bool ImGui_ImplOpenGL3_Init(const char*) { disp::need(disp::current && disp::imgui, "drawing without context or interface"); ++disp::gl_backend; return true; }
inline void ImGui_ImplOpenGL3_Shutdown() { disp::need(disp::gl_backend > 0 && disp::imgui && disp::current, "drawing shut down twice or too late"); --disp::gl_backend; }
inline void ImGui_ImplOpenGL3_NewFrame() { disp::need(disp::gl_backend, "drawing not set up"); disp::gl_new = true; }
inline void ImGui_ImplOpenGL3_RenderDrawData(ImDrawData* d) { disp::need(d && disp::current && disp::gl_backend, "nothing to draw"); disp::need(disp::cleared, "a frame is drawn over the last"); if (d) disp::drawn = true; disp::rendered = false; }
