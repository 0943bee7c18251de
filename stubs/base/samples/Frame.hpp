#pragma once
#include "../Time.hpp"
#include <vector>
#include <string>
namespace base { namespace samples { namespace frame {
struct frame_size_t { uint16_t width, height; };
enum frame_mode_t { MODE_UNDEFINED=0, MODE_GRAYSCALE=1, MODE_RGB=2, MODE_UYVY=3, MODE_BGR=4, MODE_RGB32=5 };
enum frame_status_t { STATUS_EMPTY, STATUS_VALID, STATUS_INVALID };
struct Frame {
    Time time, received_time; std::vector<uint8_t> image; frame_size_t size; uint32_t data_depth, pixel_size, row_size; frame_mode_t frame_mode; frame_status_t frame_status;
    Frame();
    Frame(uint16_t w, uint16_t h, uint8_t depth=8, frame_mode_t mode=MODE_GRAYSCALE, uint8_t const val=0, size_t sizeInBytes=0);
    void init(uint16_t w, uint16_t h, uint8_t depth=8, frame_mode_t mode=MODE_GRAYSCALE, int const val=0, size_t sizeInBytes=0);
    frame_mode_t getFrameMode() const; void setStatus(frame_status_t); frame_status_t getStatus() const;
    uint16_t getWidth() const; uint16_t getHeight() const; uint32_t getNumberOfBytes() const; uint32_t getPixelSize() const; uint32_t getChannelCount() const; uint32_t getRowSize() const; uint32_t getDataDepth() const;
    uint8_t* getImagePtr(); const uint8_t* getImageConstPtr() const;
    template<typename T> void setAttribute(std::string const& n, T const& v); template<typename T> T getAttribute(std::string const&) const; bool hasAttribute(std::string const&) const;
    template<typename T> T& at(unsigned int c, unsigned int r);
};
}}}
