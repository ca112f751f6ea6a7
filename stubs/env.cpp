// The process-wide context: environment, genesis and coin view are chosen by the harness.
#include <Core/Global.h>
#include <Core/Models/FullBlock.h>
#include <BlockChain/ICoinView.h>
#include "env.h"
namespace venv { Environment env = Environment::MAINNET; std::shared_ptr<const ICoinView> coinView; std::shared_ptr<const BlockHeader> genesisHeader; std::unique_ptr<FullBlock> genesis; std::atomic_bool running(true); std::vector<uint8_t> magic{ 97, 61 }; Hash genesisHash; }
Environment Global::GetEnv() { return venv::env; }
const std::atomic_bool &Global::IsRunning() { return venv::running; }
void Global::Shutdown() { venv::running = false; }
const std::vector<uint8_t> &Global::GetMagicBytes() { return venv::magic; }
const FullBlock &Global::GetGenesisBlock() { return *venv::genesis; }
const std::shared_ptr<const BlockHeader> &Global::GetGenesisHeader() { return venv::genesisHeader; }
const Hash &Global::GetGenesisHash() { return venv::genesisHash; }
void Global::SetCoinView(const std::shared_ptr<const ICoinView> &p) { venv::coinView = p; }
std::shared_ptr<const ICoinView> Global::GetCoinView() { return venv::coinView; }
