"""Behaviour-preserving edits of the TypeScript SDK."""
T = "ts/sdk/src/contracts/"
CC, CM, CR, CT = (T + "Core." + x for x in ("client.ts", "message-composer.ts", "react-query.ts", "types.ts"))
AC, AM, AT = (T + "Airdrop." + x for x in ("client.ts", "message-composer.ts", "types.ts"))
REFS = {}
QB = '''    return this.client.queryContractSmart(this.contractAddress, {
      get_balance: {
        account
      }
    });
'''
REFS["ts_query_const"] = [(CC, QB, '''    const msg = {
      get_balance: {
        account
      }
    };
    return this.client.queryContractSmart(this.contractAddress, msg);
''')]
REFS["ts_query_typed_await"] = [(CC, QB, '''    const msg: QueryMsg = { "get_balance": { account: account } };
    const answer = await this.client.queryContractSmart(this.contractAddress, msg);
    return answer;
''')]
REFS["ts_query_helper"] = [(CC, QB, '''    return this.ask({
      get_balance: {
        account
      }
    });
'''), (CC, '''  getTotalSupply = async (): Promise<Uint128> => {
    return this.client.queryContractSmart(this.contractAddress, {
      get_total_supply: {}
    });
  };
''', '''  private ask = async (msg: QueryMsg) => {
    return this.client.queryContractSmart(this.contractAddress, msg);
  };
  getTotalSupply = async (): Promise<Uint128> => {
    return this.ask({
      get_total_supply: {}
    });
  };
''')]
REFS["ts_query_args"] = [(CC, '''  getTradeInfo = async ({
    denomIn,
    denomOut
  }: {
    denomIn: string;
    denomOut: string;
  }): Promise<GetTradeInfoResponse> => {
    return this.client.queryContractSmart(this.contractAddress, {
      get_trade_info: {
        denom_in: denomIn,
        denom_out: denomOut
      }
    });
''', '''  getTradeInfo = async (args: {
    denomIn: string;
    denomOut: string;
  }): Promise<GetTradeInfoResponse> => {
    const { denomIn: denom_in, denomOut: denom_out } = args;
    return this.client.queryContractSmart(this.contractAddress, {
      get_trade_info: { denom_in, denom_out }
    });
''')]
REFS["ts_compose_helper"] = [(CM, '''    return {
      typeUrl: "/cosmwasm.wasm.v1.MsgExecuteContract",
      value: MsgExecuteContract.fromPartial({
        sender: this.sender,
        contract: this.contractAddress,
        msg: toUtf8(JSON.stringify({
          burn: {
            redeem_to: redeemTo
          }
        })),
        funds
      })
    };
''', '''    return this.compose({ burn: { redeem_to: redeemTo } }, funds);
'''), (CM, '''    this.rebalance = this.rebalance.bind(this);
  }
''', '''    this.rebalance = this.rebalance.bind(this);
  }

  private compose(msg: ExecuteMsg, funds?: Coin[]): MsgExecuteContractEncodeObject {
    return {
      typeUrl: "/cosmwasm.wasm.v1.MsgExecuteContract",
      value: MsgExecuteContract.fromPartial({
        sender: this.sender,
        contract: this.contractAddress,
        msg: toUtf8(JSON.stringify(msg)),
        funds
      })
    };
  }
''')]
REFS["ts_compose_function"] = [(AM, '''export class AirdropMessageComposer''', '''const TYPE_URL = "/cosmwasm.wasm.v1.MsgExecuteContract";
function encode(msg: ExecuteMsg) {
  return toUtf8(JSON.stringify(msg));
}
export class AirdropMessageComposer'''), (AM, '''      typeUrl: "/cosmwasm.wasm.v1.MsgExecuteContract",
      value: MsgExecuteContract.fromPartial({
        sender: this.sender,
        contract: this.contractAddress,
        msg: toUtf8(JSON.stringify({
          fund: airdropId
        })),
''', '''      typeUrl: TYPE_URL,
      value: MsgExecuteContract.fromPartial({
        sender: this.sender,
        contract: this.contractAddress,
        msg: encode({ fund: airdropId }),
''')]
REFS["ts_hook_args_whole"] = [(CR, '''() => client.simulateBurn({
    amount: args.amount,
    time: args.time
  }), options);''', '''() => client.simulateBurn(args), options);''')]
REFS["ts_hook_key_fields"] = [(CR, '''["coreSimulateBurn", client.contractAddress, JSON.stringify(args)], () => client.simulateBurn({
    amount: args.amount,
    time: args.time
  })''', '''["coreSimulateBurn", client.contractAddress, args.amount, args.time], async () => {
    const { amount, time } = args;
    return client.simulateBurn({ amount, time });
  }''')]
REFS["ts_type_alias"] = [(CT, '''export interface GetPortfolioResponse {
  assets: Coin[];
  total_supply: Uint128;
  units: [string, Decimal][];
}''', '''export type Unit = [denom: string, amount: Decimal];
export type GetPortfolioResponse = {
  assets: Array<Coin>;
  readonly total_supply: Uint128;
  units: ReadonlyArray<Unit>;
};''')]
REFS["ts_type_extends"] = [(AT, '''export type ClaimPayload = {
  open: {
    account?: string | null;
    airdrop: AirdropId;
    amount: Uint128;
    merkle_proof: string[];
  };
} | {
  bearer: {
    account?: string | null;
    airdrop: AirdropId;
    amount: Uint128;
    claim_hash: string;
    claim_sign: string;
    merkle_proof: string[];
  };
};''', '''interface OpenClaim {
  account?: string | null;
  airdrop: AirdropId;
  amount: Uint128;
  merkle_proof: string[];
}
interface BearerClaim extends OpenClaim {
  claim_hash: string;
  claim_sign: string;
}
export type ClaimPayload = { open: OpenClaim } | { bearer: OpenClaim & Omit<BearerClaim, keyof OpenClaim> };''')]
REFS["ts_execute_method"] = [(AC, '''  claim = async (claimPayload: ClaimPayload, fee: number | StdFee | "auto" = "auto", memo?: string, funds?: Coin[]): Promise<ExecuteResult> => {
    return await this.client.execute(this.sender, this.contractAddress, {
      claim: claimPayload
    }, fee, memo, funds);
  };''', '''  claim = async (payload: ClaimPayload, fee: number | StdFee | "auto" = "auto", memo?: string, funds?: Coin[]): Promise<ExecuteResult> => {
    const { client, sender, contractAddress } = this;
    return client.execute(sender, contractAddress, { claim: payload }, fee, memo, funds);
  };''')]
