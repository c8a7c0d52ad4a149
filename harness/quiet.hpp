#pragma once
#include "fly/logger/log.hpp"
#include "fly/logger/logger.hpp"
#include "fly/logger/logger_config.hpp"
#include "fly/logger/sink.hpp"

#include <memory>

// The library logs warnings through the default logger: give it a sink that drops them.
inline void quiet_logger()
{
    struct Drop : fly::logger::Sink
    {
        bool initialize() override { return true; }
        bool stream(fly::logger::Log &&) override { return true; }
    };
    fly::logger::Logger::set_default_logger(fly::logger::Logger::create("verif-quiet", std::make_shared<fly::logger::LoggerConfig>(), std::make_unique<Drop>()));
}
