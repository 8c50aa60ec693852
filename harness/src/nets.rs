//! Networks with known weights
use die_e::{alphazero::nnet::ResNet, base::LearnableGame, constants::DEVICE};
use tch::{nn::VarStore, Kind, Tensor};

/// A randomly initialised network whose outputs vary: final layers scaled up
pub fn random<T: LearnableGame>(seed: i64, policy_gain: f64, value_gain: f64) -> ResNet {
    tch::manual_seed(seed);
    let net = ResNet::new::<T>(VarStore::new(*DEVICE));
    tch::no_grad(|| {
        for (_, mut t) in net.vs.variables() {
            let s = t.size();
            if s == [T::ACTION_SPACE_SIZE, 32 * T::CONV_OUTPUT_SIZE] { let _ = t.g_mul_scalar_(policy_gain); }
            else if s == [1, 3 * T::CONV_OUTPUT_SIZE] { let _ = t.g_mul_scalar_(value_gain); }
        }
    });
    net
}

/// what the network says about one position, computed apart from any search: policy by code, value
pub fn eval<T: LearnableGame>(net: &ResNet, s: &T) -> (Vec<f64>, f64) {
    tch::no_grad(|| {
        let (p, v) = net.forward_t(&s.as_tensor().to_device(*DEVICE), false);
        (floats(&p), v.double_value(&[0, 0]))
    })
}

pub fn floats(t: &Tensor) -> Vec<f64> {
    Vec::try_from(&t.flatten(0, -1).to_dtype(Kind::Double, false, true).to_device(tch::Device::Cpu)).unwrap()
}
