#pragma once
#include "imgui.h"
namespace ImPlot {
inline void* CreateContext() { disp::need(disp::imgui, "plots without an interface"); ++disp::implot; return nullptr; }
inline void DestroyContext() { disp::need(disp::implot > 0, "plots destroyed twice"); disp::need(disp::imgui, "the interface is destroyed before the plots"); --disp::implot; }
}
