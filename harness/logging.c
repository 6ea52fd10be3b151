// C29: log calls reach the callback exactly when they should.
#include "mc.h"
#include <aerospike/as_log_macros.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>

static struct { int calls, who, level, line; char func[64], file[200], msg[400]; bool ret; } got;
static bool
take(int who, as_log_level level, const char* func, const char* file, uint32_t line, const char* fmt, va_list ap)
{
	got.calls++;
	got.who = who;
	got.level = (int)level;
	got.line = (int)line;
	snprintf(got.func, sizeof got.func, "%s", func);
	snprintf(got.file, sizeof got.file, "%s", file);
	vsnprintf(got.msg, sizeof got.msg, fmt, ap);
	return got.ret;
}
#define CALLBACK(n) \
	static bool callback##n(as_log_level level, const char* func, const char* file, uint32_t line, const char* fmt, ...) \
	{ va_list ap; va_start(ap, fmt); bool r = take(n, level, func, file, line, fmt, ap); va_end(ap); return r; }
CALLBACK(1)
CALLBACK(2)
static as_log_callback const callbacks[] = { NULL, callback1, callback2 };

// Where a call was made, and how often its arguments were evaluated.
static int line, evaluated;
static const char* func;
static int arg(int v) { evaluated++; return v; }
#define EACH(LOG) \
	switch (shape) { \
	case 0: line = __LINE__; LOG("plain") break; \
	case 1: line = __LINE__; LOG("100%%") break; \
	case 2: line = __LINE__; LOG("%d", arg(-5)) break; \
	case 3: line = __LINE__; LOG("%s and %s", "one", "") break; \
	case 4: line = __LINE__; LOG("%d %s %.2f", arg(7), "x", 1.5) break; \
	default: line = __LINE__; LOG("%200d|", arg(3)) break; \
	}
#define CALL(name, LOG) static void name(int shape) { func = __func__; EACH(LOG) }
CALL(call_error, as_log_error)
CALL(call_warn, as_log_warn)
CALL(call_info, as_log_info)
CALL(call_debug, as_log_debug)
CALL(call_trace, as_log_trace)
#define SHAPES 6
static const char* text(int shape)
{
	static char wide[400];
	switch (shape) {
	case 0: return "plain";
	case 1: return "100%";
	case 2: return "-5";
	case 3: return "one and ";
	case 4: return "7 x 1.50";
	default: snprintf(wide, sizeof wide, "%200d|", 3); return wide;
	}
}
static void (*const call[])(int) = { call_error, call_warn, call_info, call_debug, call_trace };
static bool on(int level)
{
	switch (level) {
	case 0: return as_log_error_enabled();
	case 1: return as_log_warn_enabled();
	case 2: return as_log_info_enabled();
	case 3: return as_log_debug_enabled();
	default: return as_log_trace_enabled();
	}
}
static const char* const names[] = { "ERROR", "WARN", "INFO", "DEBUG", "TRACE" };
static as_log initial;
static void start(void)
{
	static bool kept;
	if (!kept) initial = g_as_log;
	kept = true;
	g_as_log = initial;
}
static void check_log(int level, int shape, int threshold, int cb)
{
	bool want = cb != 0 && level <= threshold;
	memset(&got, 0, sizeof got);
	got.ret = shape & 1;
	evaluated = 0;
	mc_log("log at %s, threshold %s, callback %d", names[level], names[threshold], cb);
	call[level](shape);
	mc_step();
	MC_CHECK(got.calls == want, "delivery", "a message at %s with threshold %s and callback %d was delivered %d time(s)", names[level], names[threshold], cb, got.calls);
	if (!want) return;
	MC_CHECK(got.who == cb, "callback", "callback %d instead of %d got the message", got.who, cb);
	MC_CHECK(got.level == level, "level", "a message at %s is delivered as %d", names[level], got.level);
	MC_CHECK(got.line == line && strcmp(got.func, func) == 0 && strcmp(got.file, __FILE__) == 0, "place", "delivered as from %s:%d %s instead of %s:%d %s", got.file, got.line, got.func, __FILE__, line, func);
	MC_CHECK(strcmp(got.msg, text(shape)) == 0, "text", "delivered as \"%s\"", got.msg);
	MC_CHECK(evaluated == (shape == 2 || shape >= 4), "evaluated", "the arguments were evaluated %d time(s)", evaluated);
}
// Histories of configuring and logging.
static void sc_history(void)
{
	int threshold = 2, cb = 0, depth = mc_pick(4, 5);
	start();
	for (int i = 0; i < depth; i++) {
		int op = mc_choose(5 + 3 + 5);
		if (op < 5) { as_log_set_level((as_log_level)op); threshold = op; mc_log("threshold %s", names[op]); }
		else if (op < 8) { as_log_set_callback(callbacks[op - 5]); cb = op - 5; mc_log("callback %d", cb); }
		else check_log(op - 8, i % SHAPES, threshold, cb);
		mc_step();
		for (int l = 0; l < 5; l++) MC_CHECK(on(l) == (cb != 0 && l <= threshold), "enabled", "%s is said to be %s with threshold %s and callback %d", names[l], on(l) ? "enabled" : "disabled", names[threshold], cb);
	}
	mc_state((uint64_t)(threshold * 10 + cb));
}
static void sc_calls(void)
{
	int threshold = mc_choose(5), cb = mc_choose(3), level = mc_choose(5), shape = mc_choose(SHAPES);
	start();
	as_log_set_level((as_log_level)threshold);
	as_log_set_callback(callbacks[cb]);
	check_log(level, shape, threshold, cb);
	MC_CHECK(strcmp(as_log_level_tostring((as_log_level)level), names[level]) == 0, "name", "%s is called \"%s\"", names[level], as_log_level_tostring((as_log_level)level));
	mc_case();
}
const mc_scenario mc_scenarios[] = {
	{ "history", sc_history, 2, "all histories of 4 (5) steps: 5 thresholds, 3 callbacks (one missing), messages at 5 levels; what is enabled after each" },
	{ "calls", sc_calls, 2, "5 thresholds x 3 callbacks x 5 levels x 6 messages" },
	{ NULL } };
