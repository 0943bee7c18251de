#pragma once
#include <cstdio>
#include <iostream>
namespace base_logging_stub { void logf(const char*, ...); std::ostream& logs(); }
#define LOG_DEBUG(...) base_logging_stub::logf(__VA_ARGS__)
#define LOG_INFO(...) base_logging_stub::logf(__VA_ARGS__)
#define LOG_WARN(...) base_logging_stub::logf(__VA_ARGS__)
#define LOG_ERROR(...) base_logging_stub::logf(__VA_ARGS__)
#define LOG_DEBUG_S base_logging_stub::logs()
#define LOG_INFO_S base_logging_stub::logs()
#define LOG_WARN_S base_logging_stub::logs()
#define LOG_ERROR_S base_logging_stub::logs()
