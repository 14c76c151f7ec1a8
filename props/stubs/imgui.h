// Stand-in for Dear ImGui: records what is drawn.
#pragma once
#include <cstddef>
#include <cstdarg>
#include <cstdio>
#include <string>
#include <vector>
struct ImVec2 { float x = 0, y = 0; ImVec2() {} ImVec2(float a, float b) : x(a), y(b) {} };
struct ImVec4 { float x, y, z, w; ImVec4(float a, float b, float c, float d) : x(a), y(b), z(c), w(d) {} };
using ImU32 = unsigned; using ImGuiWindowFlags = int; using ImGuiMouseButton = int;
#define IM_COL32(r, g, b, a) ((ImU32)(a) << 24 | (ImU32)(b) << 16 | (ImU32)(g) << 8 | (ImU32)(r))
enum { ImGuiCond_FirstUseEver = 4, ImGuiWindowFlags_NoMove = 4, ImGuiWindowFlags_NoResize = 2, ImGuiWindowFlags_NoCollapse = 32, ImGuiMouseButton_Left = 0, ImGuiMouseButton_Right = 1 };
struct ImDrawList {
    std::vector<ImVec2> triangles; std::vector<std::string> texts; size_t lines = 0;
    struct Seg { ImVec2 a, b; }; struct Tri { ImVec2 a, b, c; ImU32 color; }; struct Label { ImVec2 at; std::string text; };
    std::vector<Seg> segs; std::vector<Tri> tris; std::vector<Label> labels; int clips = 0;
    void PushClipRect(ImVec2, ImVec2, bool = false) { ++clips; }
    void PopClipRect() { --clips; }
    void AddRectFilled(ImVec2, ImVec2, ImU32) {}
    void AddRect(ImVec2, ImVec2, ImU32) {}
    void AddLine(ImVec2 a, ImVec2 b, ImU32, float = 1) { ++lines; segs.push_back({a, b}); }
    void AddTriangleFilled(ImVec2 a, ImVec2 b, ImVec2 c, ImU32 k) { triangles.push_back(a); tris.push_back({a, b, c, k}); }
    void AddTriangle(ImVec2, ImVec2, ImVec2, ImU32, float) {}
    void AddText(ImVec2 p, ImU32, const char* t, const char* = nullptr) { texts.push_back(t); labels.push_back({p, t}); }
};
struct ImGuiIO { ImVec2 MousePos{-1, -1}; float MouseWheel = 0; };
namespace ImGui {
inline thread_local ImDrawList list; inline thread_local ImGuiIO io; inline thread_local std::string info; inline thread_local ImVec2 canvas{1000, 500};
inline void SetNextWindowSize(ImVec2, int) {}
inline void SetNextWindowPos(ImVec2, int) {}
inline bool Begin(const char*, bool* = nullptr, int = 0) { return true; }
// scripted user
inline thread_local bool press = false; inline thread_local float slide = -1; inline thread_local std::string button;
inline bool Button(const char* t) { button = t; bool p = press; press = false; return p; }
inline void SameLine() {}
inline void SetNextItemWidth(float) {}
inline bool SliderFloat(const char*, float* v, float, float, const char*) { if (slide < 0) return false; *v = slide; return true; }
inline bool IsItemHovered() { return false; }
inline void SetTooltip(const char*, ...) {}
inline void End() {}
inline thread_local ImVec2 corner{0, 0}, drag[3]; inline thread_local bool held[3]; inline thread_local std::vector<ImVec4> colors;
inline ImVec2 GetCursorScreenPos() { return corner; }
inline void SetCursorScreenPos(ImVec2) {}
inline ImVec2 GetContentRegionAvail() { return canvas; }
inline ImDrawList* GetWindowDrawList() { return &list; }
inline ImU32 GetColorU32(const ImVec4& c) { colors.push_back(c); return (ImU32)colors.size(); }
inline ImGuiIO& GetIO() { return io; }
inline bool IsMouseDragging(int b, float = -1) { return held[b]; }
inline ImVec2 GetMouseDragDelta(int b = 0, float = -1) { return held[b] ? drag[b] : ImVec2(); }
inline void ResetMouseDragDelta(int b = 0) { drag[b] = ImVec2(); }
__attribute__((format(printf, 1, 2))) inline void Text(const char* f, ...) { char b[400]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); info = b; }
}
