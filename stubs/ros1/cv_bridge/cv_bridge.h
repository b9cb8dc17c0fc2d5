// Environment model of cv_bridge: images of one pixel, converted between grey, 16-bit grey and colour.
#pragma once
#include <sensor_msgs/Image.h>
#include <opencv2/core.hpp>
#include <opencv2/imgproc.hpp>
#include <stdexcept>
namespace cv_bridge {
class Exception : public std::runtime_error { public: Exception(const std::string& w) : std::runtime_error(w) {} };
class CvImage { public:
  std_msgs::Header header; std::string encoding; cv::Mat image;
  CvImage() {} CvImage(const std_msgs::Header& h, const std::string& e, const cv::Mat& i = cv::Mat()) : header(h), encoding(e), image(i) {}
  sensor_msgs::ImagePtr toImageMsg() const { auto m = boost::make_shared<sensor_msgs::Image>(); m->header = header; m->encoding = encoding; m->height = image.rows; m->width = image.cols; cv::Mat c = image.clone(); m->data.assign(c.data, c.data + c.total() * c.elemSize()); return m; } };
typedef boost::shared_ptr<CvImage> CvImagePtr; typedef boost::shared_ptr<const CvImage> CvImageConstPtr;
inline CvImagePtr toCvCopy(const sensor_msgs::ImageConstPtr& m, const std::string& to = "") {
  const std::string e = to.empty() ? m->encoding : to; int v;
  if (m->encoding == "mono8" || m->encoding == "bgr8" || m->encoding == "rgb8") v = m->data.at(0); else if (m->encoding == "mono16") v = m->data.at(0) + 256 * m->data.at(1); else throw Exception("unknown encoding " + m->encoding);
  auto r = boost::make_shared<CvImage>(m->header, e); const bool wide = m->encoding == "mono16";
  if (e == "bgr8" || e == "rgb8") { if (wide) v = (int)(v / 65535.0 * 255 + 0.5); r->image = cv::Mat(m->height, m->width, CV_8UC3, cv::Scalar(v, v, v)); }
  else if (e == "mono8") { if (wide) v = (int)(v / 65535.0 * 255 + 0.5); r->image = cv::Mat(m->height, m->width, CV_8UC1, cv::Scalar(v)); }
  else if (e == "mono16") { if (!wide) v = (int)(v / 255.0 * 65535 + 0.5); r->image = cv::Mat(m->height, m->width, CV_16UC1, cv::Scalar(v)); }
  else throw Exception("unknown encoding " + e);
  return r; }
inline CvImageConstPtr toCvShare(const sensor_msgs::ImageConstPtr& m, const std::string& to = "") { return toCvCopy(m, to); }
}
