// Registration tables of the simulated build: the project's own tables minus RTMP, which needs a
// patched librtmp that is not available (see DESIGN.md).
#include <sps_root_module.hpp>
#include <sps_host_module.hpp>
#include <sps_host_global_module.hpp>
#include <sps_host_loc_module.hpp>
#include <sps_http_module.hpp>
#include <sps_server_module.hpp>
#include <sps_stream_module.hpp>
#include <sps_upstream_module.hpp>
#include <sps_srt_module.hpp>
#include <sps_io_url_file.hpp>
#include <sps_io_url_http.hpp>
#include <sps_io_url_protocol.hpp>
#include <sps_avformat_dec.hpp>
#include <sps_avformat_enc.hpp>
#include <sps_avformat_flvdec.hpp>
#include <sps_avformat_flvenc.hpp>
#include <sps_avformat_tsdec.hpp>
namespace sps {
#define M(NAME) (std::make_shared<NAME##ModuleFactory>())
PIModuleFactory sps_modules[] = { M(Root), M(Http), M(Server), M(Host), M(GlobalHost), M(Location), M(Stream), M(UpStream), M(Srt), nullptr };
PIURLProtocolFactory sps_url_protocols[] = { std::make_shared<HttpURLProtocolFactory>(), std::make_shared<FileURLProtocolFactory>(), nullptr };
PIAVInputFormat av_input_formats[] = { std::make_shared<FlvAVInputFormat>(), std::make_shared<TsAVInputFormat>(), nullptr };
PIAVOutputFormat av_output_formats[] = { std::make_shared<FlvAVOutputFormat>(), nullptr };
}
