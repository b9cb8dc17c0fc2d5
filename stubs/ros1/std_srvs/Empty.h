#pragma once
namespace std_srvs { struct EmptyRequest {}; struct EmptyResponse {}; struct Empty { EmptyRequest request; EmptyResponse response; }; }
