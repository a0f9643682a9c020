// Declarations of the libcurl calls that sample/transport uses, so that the
// sample can be parsed without libcurl's headers. Analysis only: never linked.
#ifndef VERIF_STUB_CURL_H_
#define VERIF_STUB_CURL_H_
#if __has_include_next(<curl/curl.h>)
#include_next <curl/curl.h>
#else
extern "C" {
typedef struct Curl_easy CURL;
struct curl_slist { char* data; struct curl_slist* next; };
typedef enum { CURLE_OK = 0, CURLE_HTTP_RETURNED_ERROR = 22 } CURLcode;
typedef enum {
  CURLOPT_URL = 10002, CURLOPT_HTTPHEADER = 10023, CURLOPT_HEADER = 42,
  CURLOPT_CUSTOMREQUEST = 10036, CURLOPT_SSL_VERIFYPEER = 64,
  CURLOPT_SSL_VERIFYHOST = 81, CURLOPT_SSLVERSION = 32,
  CURLOPT_SSL_CIPHER_LIST = 10083, CURLOPT_POSTFIELDS = 10015,
  CURLOPT_POSTFIELDSIZE = 60, CURLOPT_POSTFIELDSIZE_LARGE = 30120,
  CURLOPT_COPYPOSTFIELDS = 10165,
  CURLOPT_WRITEFUNCTION = 20011, CURLOPT_WRITEDATA = 10001,
  CURLOPT_FAILONERROR = 45, CURLOPT_POST = 47, CURLOPT_NOSIGNAL = 99,
  CURLOPT_TIMEOUT = 13, CURLOPT_VERBOSE = 41
} CURLoption;
typedef enum { CURLINFO_RESPONSE_CODE = 0x200002 } CURLINFO;
enum { CURL_SSLVERSION_TLSv1 = 1 };
typedef long long curl_off_t;
CURL* curl_easy_init(void);
CURLcode curl_easy_setopt(CURL* curl, CURLoption option, ...);
CURLcode curl_easy_perform(CURL* curl);
CURLcode curl_easy_getinfo(CURL* curl, CURLINFO info, ...);
void curl_easy_cleanup(CURL* curl);
const char* curl_easy_strerror(CURLcode);
struct curl_slist* curl_slist_append(struct curl_slist*, const char*);
void curl_slist_free_all(struct curl_slist*);
}
#endif
#endif
