// Access to the frozen reference codec (ref/).
#ifndef VERIF_REF_API_H_
#define VERIF_REF_API_H_

#include <cstdint>
#include <vector>

namespace ref {

// Parses a JPEG and encodes it with context-model `version` (0 or 2).
bool Encode(const std::vector<uint8_t>& jpeg, int version, std::vector<uint8_t>* brn);
// The same with choices the encoder would not make, where the format leaves a
// choice: any context scheme, coefficient order, clustering, distributions...
bool EncodeWild(const std::vector<uint8_t>& jpeg, int version, uint64_t seed, std::vector<uint8_t>* brn);
bool EncodeBypass(const std::vector<uint8_t>& bytes, std::vector<uint8_t>* brn);
// Decodes to JPEG bytes.
bool Decode(const std::vector<uint8_t>& brn, std::vector<uint8_t>* jpeg);
// The same with the incremental decoder fed `chunk` bytes at a time.
bool DecodeStreaming(const std::vector<uint8_t>& brn, size_t chunk, std::vector<uint8_t>* jpeg);

// How much the incremental decoder has delivered when it has got the first
// cuts[i] bytes and all it delivers has been taken.
bool Progress(const std::vector<uint8_t>& brn, const std::vector<size_t>& cuts, std::vector<size_t>* delivered);

}  // namespace ref

#endif
