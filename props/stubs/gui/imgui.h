// Stand-in for Dear ImGui: contexts, frames and back ends follow its rules
#pragma once
#include "GLFW/glfw3.h"
struct ImDrawData {}; struct ImGuiStyle { bool AntiAliasedLines = false, AntiAliasedLinesUseTex = false; };
#define IMGUI_CHECKVERSION() (void)0
namespace ImGui {
inline ImDrawData data; inline ImGuiStyle style;
inline void* CreateContext() { ++disp::imgui; disp::in_frame = disp::rendered = false; style = {}; return &data; }
inline void DestroyContext() { disp::need(disp::imgui > 0, "interface destroyed twice"); disp::need(!disp::gl_backend && !disp::glfw_backend, "the interface is destroyed before its back ends"); --disp::imgui; }
inline void StyleColorsDark() { disp::need(disp::imgui, "style without an interface"); }
inline ImGuiStyle& GetStyle() { disp::need(disp::imgui, "style without an interface"); return style; }
inline void NewFrame() { disp::need(disp::imgui && disp::gl_new && disp::glfw_new, "a frame begins before its back ends"); disp::need(!disp::in_frame, "a frame begins within a frame"); disp::in_frame = true; disp::rendered = false; disp::gl_new = disp::glfw_new = false; }
inline void Render() { disp::need(disp::in_frame, "a frame ends that was not begun"); disp::in_frame = false; disp::rendered = true; }
inline ImDrawData* GetDrawData() { disp::need(disp::rendered, "the previous frame is drawn again"); return disp::rendered ? &data : nullptr; }
}
