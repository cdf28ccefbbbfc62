// Stand-in for zustand/vanilla.
export const createStore = (make) => {
  let state;
  const listeners = new Set();
  const getState = () => state;
  const setState = (x) => {
    const part = typeof x === "function" ? x(state) : x;
    if (!Object.is(part, state)) {
      const before = state;
      state = Object.assign({}, state, part);
      listeners.forEach((l) => l(state, before));
    }
  };
  const subscribe = (l) => {
    listeners.add(l);
    return () => listeners.delete(l);
  };
  const api = { getState, setState, subscribe, destroy: () => listeners.clear() };
  state = make(setState, getState, api);
  return api;
};
