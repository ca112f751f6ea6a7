#pragma once
#include <Core/Global.h>
#include <Core/Models/FullBlock.h>
namespace venv { extern Environment env; extern std::shared_ptr<const ICoinView> coinView; extern std::shared_ptr<const BlockHeader> genesisHeader; extern std::unique_ptr<FullBlock> genesis; extern std::atomic_bool running; extern std::vector<uint8_t> magic; extern Hash genesisHash; }
