#pragma once
#include "imgui.h"
inline bool ImGui_ImplGlfw_InitForOpenGL(GLFWwindow* w, bool cb) { disp::need(w && disp::imgui && cb, "input without window, interface or call-backs"); ++disp::glfw_backend; return true; }
inline void ImGui_ImplGlfw_Shutdown() { disp::need(disp::glfw_backend > 0 && disp::imgui, "input shut down twice or too late"); --disp::glfw_backend; }
inline void ImGui_ImplGlfw_NewFrame() { disp::need(disp::glfw_backend, "input of no window"); disp::glfw_new = true; }
