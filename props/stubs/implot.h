// Stand-in for ImPlot: records what is drawn.
#pragma once
#include "imgui.h"
struct ImPlotPoint { double x, y; ImPlotPoint(double a, double b) : x(a), y(b) {} };
using ImPlotAxisFlags = int;
enum { ImAxis_X1, ImAxis_Y1 = 3, ImPlotAxisFlags_AutoFit = 1 << 11, ImPlotAxisFlags_Lock = 3 << 14, ImPlotColormap_Plasma = 5 };
namespace ImPlot {
struct Line { std::string label; std::vector<float> x, y; };
struct Heat { std::string plot, label; std::vector<float> v; int rows, cols; ImPlotPoint lo, hi; double x0, x1, y0, y1; };
inline thread_local std::vector<Line> lines; inline thread_local std::vector<Heat> heats; inline thread_local bool shown = true; inline thread_local int depth = 0; inline thread_local std::string title; inline thread_local double lim[4];
inline bool BeginPlot(const char* n) { if (!shown) return false; title = n; ++depth; return true; }
inline void EndPlot() { --depth; }
inline void SetupAxis(int, const char*, int = 0) {}
inline void SetupAxes(const char*, const char*, int = 0, int = 0) {}
inline void SetupAxisLimits(int a, double lo, double hi) { int i = a == ImAxis_X1 ? 0 : 2; lim[i] = lo; lim[i + 1] = hi; }
inline void PushColormap(int) {}
inline void PopColormap() {}
inline void PlotLine(const char* n, const float* x, const float* y, int c) { lines.push_back({n, {x, x + c}, {y, y + c}}); }
inline void PlotHeatmap(const char* n, const float* v, int r, int c, double, double, const char*, ImPlotPoint lo, ImPlotPoint hi) { heats.push_back({title, n, {v, v + (size_t)r * c}, r, c, lo, hi, lim[0], lim[1], lim[2], lim[3]}); }
inline void clear() { lines.clear(); heats.clear(); ImGui::info.clear(); ImGui::button.clear(); }
}
