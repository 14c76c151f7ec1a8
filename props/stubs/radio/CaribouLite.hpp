// Stand-in for the CaribouLite C++ API: the part that cler's block uses
#pragma once
#include <complex>
#include <cstddef>
#include <iostream>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
struct CaribouLiteFreqRange { double a, b; double fmin() const { return a; } double fmax() const { return b; } };
struct CaribouLiteRadio {
    enum class RadioType { S1G = 0, HiF = 1 };
    virtual ~CaribouLiteRadio() = default;
    virtual std::vector<CaribouLiteFreqRange> GetFrequencyRange() = 0;
    virtual float GetRxSampleRateMin() = 0; virtual float GetRxSampleRateMax() = 0; virtual size_t GetNativeMtuSample() = 0;
    virtual void SetFrequency(float) = 0; virtual void SetRxSampleRate(float) = 0; virtual void SetAgc(bool) = 0; virtual void SetRxGain(float) = 0;
    virtual void StartReceiving() = 0; virtual void StopReceiving() = 0;
    virtual int ReadSamples(std::complex<float>*, size_t) = 0; virtual int ReadSamples(std::complex<short>*, size_t) = 0;
};
struct CaribouLite {
    enum SysVersion { eUnknown = 0, eFull = 1, eIsm = 2 };
    static bool DetectBoard(SysVersion*, std::string&, std::string&);
    static std::string GetSystemVersionStr(SysVersion) { return "stand-in"; }
    static CaribouLite& GetInstance(bool = false);
    CaribouLiteRadio* GetRadioChannel(CaribouLiteRadio::RadioType);
};
