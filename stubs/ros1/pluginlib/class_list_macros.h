// Environment model of plugin registration: a table of class names and factories.
#pragma once
struct vp_plugin { const char* name; void* (*make)(); };
#define VP_CAT2(a, b) a##b
#define VP_CAT(a, b) VP_CAT2(a, b)
#define PLUGINLIB_EXPORT_CLASS(T, B) VP_EXPORT(T, B, __COUNTER__)
#define VP_EXPORT(T, B, N) VP_EXPORT2(T, B, N)
#define VP_EXPORT2(T, B, N) namespace { void* vp_make_##N() { B* b = new T(); return b; } __attribute__((section("vp_plugins"), used)) const vp_plugin vp_entry_##N = { #T, vp_make_##N }; }
