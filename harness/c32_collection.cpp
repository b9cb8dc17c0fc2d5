// Data collection node, run through its main function against models of transforms, image topics, services and the finder.
#include "vp.h"
#include <cmath>
#include <string>
#include <vector>
#include <Eigen/Geometry>
#include <xmlrpcpp/XmlRpcValue.h>
#define main tool_main
#include "command_line_cal.cpp"
#undef main
using X=XmlRpc::XmlRpcValue; using Iso=Eigen::Isometry3d;
static std::string S(const std::string& a,int i){ return a+std::to_string(i); }
static bool transform_there=true,write_ok=true,configured=false; static int lookups=0,saves=0,finder_ok=1,drawn_from=-1; static std::string saved_to; static rct_ros_tools::ExtrinsicDataSet saved;
static geometry_msgs::TransformStamped given; static bool gone_transform=false;
static geometry_msgs::TransformStamped lookup(const std::string& t,const std::string& s,double at){ lookups++; vp_check("transform-from-base-to-tool",t=="the base"&&s=="the tool"); vp_check("latest-transform",at==0||at==1000); if(!transform_there) throw tf2::LookupException("unknown frame");
  geometry_msgs::TransformStamped r; std::string n=S("t",lookups)+"_"; r.transform.translation.x=vp_real((n+"x").c_str()); r.transform.translation.y=vp_real((n+"y").c_str()); r.transform.translation.z=vp_real((n+"z").c_str()); r.transform.rotation.x=vp_real((n+"qx").c_str()); r.transform.rotation.y=vp_real((n+"qy").c_str()); r.transform.rotation.z=vp_real((n+"qz").c_str()); r.transform.rotation.w=vp_real((n+"qw").c_str()); given=r; return r; }
struct T_ : rct_image_tools::Target { rct_optimizations::Correspondence2D3D::Set createCorrespondences(const rct_image_tools::TargetFeatures&) const override { return {}; } }; static T_ target_;
static int pixel(const cv::Mat& m){ if(m.empty()) return -1; return m.data[0]; }
struct P_ : rct_ros_tools::TargetFinderPlugin { void init(const YAML::Node& c) override { configured=c["type"].as<std::string>()=="some finder"&&c["rows"].as<int>()==7; } const rct_image_tools::Target& target() const override { return target_; }
  rct_image_tools::TargetFeatures findTargetFeatures(const cv::Mat& m) const override { vp_check("finder-configured",configured); vp_check("colour-image-searched",m.type()==CV_8UC3); if(!finder_ok) throw std::runtime_error("nothing here"); rct_image_tools::TargetFeatures f; f[pixel(m)].push_back(Eigen::Vector2d(1,2)); return f; }
  // draws on the image it is given, like the marker finders
  cv::Mat drawTargetFeatures(const cv::Mat& m,const rct_image_tools::TargetFeatures& f) const override { vp_check("own-features-drawn",f.size()==1&&f.count(pixel(m))); cv::Mat o=m; for(size_t i=0;i<o.total()*o.elemSize();i++) o.data[i]+=100; return o; } };
static void* plugin(const std::string& p,const std::string& b,const std::string& t){ vp_check("finder-type",p=="rct_ros_tools"&&b=="rct_ros_tools::TargetFinderPlugin"&&t=="some finder"); return static_cast<rct_ros_tools::TargetFinderPlugin*>(new P_()); }
namespace rct_ros_tools { bool saveToDirectory(const std::string& p,const ExtrinsicDataSet& d){ saves++; saved_to=p; saved=d; for(auto& i:saved.images) i=i.clone(); return write_ok; } }
// PLAIN: longer histories of events with fewer outcomes each
#ifdef PLAIN
static int pick(const std::string& n,int k,int most){ (void)most; return n[0]=='t'?vp_concrete(vp_int(n.c_str(),0,1)):k; }
#else
static int pick(const std::string& n,int k,int most){ (void)k; return vp_concrete(vp_int(n.c_str(),0,most)); }
#endif
static bool spun=false;
static void scenario(){ spun=true; vp_check("images-awaited",vp_subscribed.count("/camera/image")==1); vp_check("services-offered",ros::vp_services.count("collect")&&ros::vp_services.count("save")); if(!vp_subscribed.count("/camera/image")||!ros::vp_services.count("collect")||!ros::vp_services.count("save")) return;
  std::vector<std::pair<int,geometry_msgs::TransformStamped>> want; int last=-1; 
  for(int e=0;e<EVENTS;e++){ int id=10+e; switch(vp_concrete(vp_int(S("event",e).c_str(),0,2))){
    case 0: { int how=pick(S("image",e),e%3,3); auto m=boost::make_shared<sensor_msgs::Image>(); m->header.seq=id; m->header.frame_id=S("f",id); m->height=1; m->width=2; m->encoding=how==0?"mono16":how==1?"bgr8":how==2?"mono8":"strange"; m->data.assign(how==0?4:how==1?6:2,0); for(size_t i=0;i<m->data.size();i++) m->data[i]=how==0&&i%2?0:id; finder_ok=pick(S("seen",e),1,1);
      size_t before=vp_published.size(); vp_subscribed["/camera/image"](m); if(how==3){ vp_check("unreadable-image-not-shown",vp_published.size()==before); break; } last=id; vp_check("every-image-shown-once",vp_published.size()==before+1); if(vp_published.size()!=before+1) return; auto& o=vp_published.back(); vp_check("shown-on-the-observer-topic",o.first=="/camera/image_observer"); vp_check("shown-with-its-header",o.second.header.seq==(unsigned)id&&o.second.header.frame_id==S("f",id)); vp_check("shown-whole",o.second.height==1&&o.second.width==2&&o.second.encoding=="bgr8"&&o.second.data.size()==6); for(auto b:o.second.data) vp_check("shown-with-its-features",b==(finder_ok?id+100:id)); break; }
    case 1: { transform_there=pick(S("transform",e),1,1); int before=lookups; bool ok=ros::vp_services["collect"](); vp_check("collection-reported",ok==(transform_there&&last>=0)); if(ok){ vp_check("transform-of-the-moment",lookups>before); want.push_back({last,given}); } transform_there=true; break; }
    default: { write_ok=pick(S("writable",e),1,1); int before=saves; bool ok=ros::vp_services["save"](); vp_reach("saved"); vp_check("saved-once",saves==before+1); vp_check("saving-reported",ok==write_ok); vp_check("saved-where-asked",saved_to=="/the/place"); vp_check("every-collected-pair-saved",saved.images.size()==want.size()&&saved.tool_poses.size()==want.size()); if(saved.images.size()!=want.size()||saved.tool_poses.size()!=want.size()) return;
      for(size_t i=0;i<want.size();i++){ cv::Mat m=saved.images[i]; vp_check("saved-image",m.rows==1&&m.cols==2&&m.type()==CV_8UC3); if(m.type()!=CV_8UC3||m.total()!=2) return; for(int k=0;k<6;k++) vp_check("saved-image",m.data[k]==want[i].first); auto& q=want[i].second.transform.rotation; auto& t=want[i].second.transform.translation; double x=q.x,y=q.y,z=q.z,w=q.w; double R[3][4]={{1-2*(y*y+z*z),2*(x*y-w*z),2*(x*z+w*y),t.x},{2*(x*y+w*z),1-2*(x*x+z*z),2*(y*z-w*x),t.y},{2*(x*z-w*y),2*(y*z+w*x),1-2*(x*x+y*y),t.z}}; for(int a=0;a<3;a++) for(int b=0;b<4;b++) vp_check_eq("saved-pose",saved.tool_poses[i](a,b),R[a][b]); } } } } }
void vp_main(){ vp_create=plugin; vp_lookup=lookup; vp_spin=scenario; auto& sv=ros::vp_server; const char* K[5]={"base_frame","tool_frame","image_topic","save_dir","target_finder"}; const char* V[4]={"the base","the tool","/camera/image","/the/place"}; for(int i=0;i<4;i++) sv[K[i]]=X(V[i]); X f; f["type"]=X("some finder"); f["rows"]=X(7); sv["target_finder"]=f;
#ifdef LOST
  int g=vp_concrete(vp_int("gone",0,5)); if(g<5) sv.erase(K[g]); else transform_there=false;
#endif
  char name[]="node"; char* args[]={name,nullptr}; int rc=-2; try { rc=tool_main(1,args); } catch(...){ vp_check("node-handles-its-exceptions",false); }
#ifdef LOST
  vp_reach("lost"); vp_check("missing-input-fails",rc!=0&&!spun); vp_check("nothing-saved",saves==0);
#else
  vp_check("ran",spun&&rc==0);
#endif
}
