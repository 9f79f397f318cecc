#ifndef VP_SHIM_LOGGING_HPP
#define VP_SHIM_LOGGING_HPP
#include <sstream>
#include <cstdio>
#include <cstdint>
#define VP_LOG_NOP(...) do {} while(0)
#define LOG_FATAL VP_LOG_NOP
#define LOG_ERROR VP_LOG_NOP
#define LOG_WARN VP_LOG_NOP
#define LOG_INFO VP_LOG_NOP
#define LOG_DEBUG VP_LOG_NOP
#define VP_LOG_STREAM if(true) {} else std::ostringstream()
#define LOG_FATAL_S VP_LOG_STREAM
#define LOG_ERROR_S VP_LOG_STREAM
#define LOG_WARN_S VP_LOG_STREAM
#define LOG_INFO_S VP_LOG_STREAM
#define LOG_DEBUG_S VP_LOG_STREAM
#endif
