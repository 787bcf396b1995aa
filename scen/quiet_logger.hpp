// Replaces the default logger (which prints to the terminal) by a silent one.
#pragma once
#include "common.hpp"

#include "fly/logger/log.hpp"
#include "fly/logger/logger.hpp"
#include "fly/logger/logger_config.hpp"
#include "fly/logger/sink.hpp"

namespace sim {

struct NullSink : fly::logger::Sink
{
    bool initialize() override { return true; }
    bool stream(fly::logger::Log &&) override { return true; }
};

inline void quiet_default_logger(char const *name = "_sim_quiet_")
{
    auto logger = fly::logger::Logger::create(name, std::make_shared<fly::logger::LoggerConfig>(), std::make_unique<NullSink>());
    if (!logger) sim_fail("oracle:create", "a logger with a working sink was not created");
    fly::logger::Logger::set_default_logger(logger);
}

} // namespace sim
