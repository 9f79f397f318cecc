#ifndef VP_SHIM_FRAME_HPP
#define VP_SHIM_FRAME_HPP
#include <base/Eigen.hpp>
#include <base/Time.hpp>
#include <sstream>
#include <cstring>
namespace base { namespace samples { namespace frame {
enum frame_mode_t { MODE_UNDEFINED = 0, MODE_GRAYSCALE = 1, MODE_RGB = 2, MODE_UYVY = 3, MODE_BGR = 4 };
enum frame_status_t { STATUS_EMPTY, STATUS_VALID, STATUS_INVALID };
struct frame_size_t { uint16_t width, height; frame_size_t():width(0),height(0){} };
struct Frame {
  Time time, received_time; std::vector<uint8_t> image; frame_size_t size; uint32_t data_depth, pixel_size, row_size; frame_mode_t frame_mode; frame_status_t frame_status;
  Frame():data_depth(0),pixel_size(0),row_size(0),frame_mode(MODE_UNDEFINED),frame_status(STATUS_EMPTY){}
  static uint32_t channels(frame_mode_t m) { return (m == MODE_RGB || m == MODE_BGR) ? 3 : (m == MODE_UYVY ? 2 : 1); }
  void init(uint16_t w, uint16_t h, uint8_t depth = 8, frame_mode_t mode = MODE_GRAYSCALE, uint8_t val = 0, size_t = 0) {
    size.width = w; size.height = h; data_depth = depth; frame_mode = mode; pixel_size = channels(mode)*((depth+7)/8); row_size = pixel_size*w; image.assign(size_t(row_size)*h, val); frame_status = STATUS_EMPTY; }
  std::map<std::string,std::string> attributes;
  template<class T> void setAttribute(const std::string& n, const T& v) { std::ostringstream o; o << v; attributes[n] = o.str(); }
  frame_mode_t getFrameMode() const { return frame_mode; }
  uint8_t* getImagePtr() { return image.data(); }
  const uint8_t* getImageConstPtr() const { return image.data(); }
  uint32_t getNumberOfBytes() const { return image.size(); }
  uint16_t getWidth() const { return size.width; } uint16_t getHeight() const { return size.height; }
};
}}}
#endif
